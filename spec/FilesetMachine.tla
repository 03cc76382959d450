--------------------------- MODULE FilesetMachine ---------------------------
(* Reloading a file set line by line, as the library does, between arbitrary
   changes to the set file and its members: it refines Libmy!FsReload, loads
   and unloads each handle exactly once, and never touches a kept member.     *)
EXTENDS Libmy
CONSTANTS Members, MaxLines, MaxEdits
VARIABLES fs,        \* the abstract set (Libmy)
          ents,      \* entries held: sequence of [f, h]
          mode, lines, fresh, kept, log, next, edits
vars == <<fs, ents, mode, lines, fresh, kept, log, next, edits>>
TwoMembers == {<<97>>, <<98>>}
Texts == UNION {[1..k -> Members] : k \in 0..MaxLines}
Init == fs = FsInit /\ ents = <<>> /\ mode = "idle" /\ lines = <<>> /\ fresh = <<>> /\ kept = {} /\ next = 1 /\ edits = 0
        /\ log = [load |-> <<>>, unload |-> <<>>, loaded |-> {}, gone |-> {}]
Edit ==
  /\ mode = "idle" /\ edits < MaxEdits /\ edits' = edits + 1
  /\ \/ \E t \in Texts : fs' = FsStep(fs, <<119>> \o Join(t, <<NL>>), <<>>)
     \/ fs' = FsStep(fs, <<120>>, <<>>)
     \/ \E m \in Members : fs' = FsStep(fs, (IF m \in fs.files THEN <<45>> ELSE <<43>>) \o m, <<>>)
  /\ UNCHANGED <<ents, mode, lines, fresh, kept, log, next>>
Begin ==
  /\ mode = "idle" /\ fs.set # <<>> /\ fs.rev # fs.seen
  /\ mode' = "read" /\ lines' = SelectSeq(Split(fs.set[1], NL), LAMBDA l : l # <<>>)
  /\ fresh' = <<>> /\ kept' = {} /\ log' = [log EXCEPT !.load = <<>>, !.unload = <<>>]
  /\ UNCHANGED <<fs, ents, next, edits>>
Names(es) == {es[i].f : i \in 1..Len(es)}
Line ==
  /\ mode = "read" /\ lines # <<>> /\ lines' = Tail(lines)
  /\ LET l == Head(lines) IN
     IF l \notin fs.files \/ l \in Names(fresh) THEN UNCHANGED <<fresh, kept, log, next>>
     ELSE IF l \in Names(ents)
     THEN /\ fresh' = Append(fresh, ents[CHOOSE i \in 1..Len(ents) : ents[i].f = l]) /\ kept' = kept \cup {l} /\ UNCHANGED <<log, next>>
     ELSE /\ fresh' = Append(fresh, [f |-> l, h |-> next]) /\ next' = next + 1 /\ UNCHANGED kept
          /\ log' = [log EXCEPT !.load = Append(@, <<l, next>>), !.loaded = @ \cup {next}]
  /\ UNCHANGED <<fs, ents, mode, edits>>
Drop ==
  /\ mode = "read" /\ lines = <<>> /\ mode' = "done"
  /\ LET d == SelectSeq(ents, LAMBDA e : e.f \notin kept) IN
     /\ log' = [log EXCEPT !.unload = [i \in 1..Len(d) |-> <<d[i].f, d[i].h>>], !.gone = @ \cup {d[i].h : i \in 1..Len(d)}]
     /\ Assert(\A i \in 1..Len(d) : d[i].h \notin log.gone, "unloaded twice")
  /\ ents' = SortSeq(fresh, LAMBDA x, y : LexLess(x.f, y.f))
  /\ UNCHANGED <<fs, lines, fresh, kept, next, edits>>
Report == [load |-> log.load, unload |-> log.unload, get |-> [i \in 1..Len(ents) |-> <<ents[i].f, ents[i].h>>]]
Commit == mode = "done" /\ mode' = "idle" /\ fs' = FsStep(fs, <<82>>, Report) /\ UNCHANGED <<ents, lines, fresh, kept, log, next, edits>>
(* the set file cannot be opened: its change stays to be seen *)
Missed == mode = "idle" /\ fs' = FsStep(fs, <<70>>, [Report EXCEPT !.load = <<>>, !.unload = <<>>]) /\ UNCHANGED <<ents, mode, lines, fresh, kept, log, next, edits>>
Next == Edit \/ Missed \/ Begin \/ Line \/ Drop \/ Commit
Spec == Init /\ [][Next]_vars
Allowed == fs.ok
Agrees == mode = "idle" => {<<ents[i].f, ents[i].h>> : i \in 1..Len(ents)} = {<<f, fs.live[f]>> : f \in DOMAIN fs.live}
Balance == mode = "idle" => {ents[i].h : i \in 1..Len(ents)} = log.loaded \ log.gone
=============================================================================
