---------------------------- MODULE QueueEvents ----------------------------
(* The single-producer/single-consumer queue, as histories of calls.  A call
   takes effect at one moment between its start and its end; a history is
   allowed when some choice of moments makes it a run of a bounded FIFO.

   Events:  <<0>> an insertion starts       <<1, done[, space]>> it returns
            <<2>> a removal starts          <<3, done, count, octets...>> it returns
            <<8>> the queue is destroyed    (anything else is a failure)    *)
EXTENDS Bytes

(* what the k-th insertion puts in *)
QItem(k, size) == [j \in 1..size |-> (37 * k + 5 * (j - 1) + 1) % 256]

(* a configuration: contents, and how far each side's current call has got:
   "idle", "open" (started, no effect yet), or the result it will report.
   met: whether the other side was active at some time during the call     *)
PEffect(s, cap, size) == IF Len(s.q) < cap THEN [s EXCEPT !.q = Append(@, QItem(s.k, size)), !.p = "yes"] ELSE [s EXCEPT !.p = "no"]
CEffect(s) == IF s.q # <<>> THEN [s EXCEPT !.q = Tail(@), !.c = "yes", !.v = s.q[1]] ELSE [s EXCEPT !.c = "no"]
(* everything reachable without an event *)
Grow(C, cap, size) ==
  LET A == C \cup {PEffect(s, cap, size) : s \in {x \in C : x.p = "open"}}
      B == A \cup {CEffect(s) : s \in {x \in A : x.c = "open"}}
  IN B \cup {PEffect(s, cap, size) : s \in {x \in B : x.p = "open"}}

QBegin == {[q |-> <<>>, p |-> "idle", c |-> "idle", v |-> <<>>, k |-> 0, pmet |-> FALSE, cmet |-> FALSE]}

(* reported room: never more than there is when the call returns, and exact when nothing else was going on *)
RoomOk(v, real, met) == v \in 0..real /\ (~met => v = real)
Result(done) == IF done = 1 THEN "yes" ELSE "no"

QStep(C0, e, cap, size) ==
  LET C == Grow(C0, cap, size) IN
  CASE e[1] = 0 -> {[s EXCEPT !.p = "open", !.k = @ + 1, !.pmet = s.c # "idle", !.cmet = TRUE] : s \in {x \in C : x.p = "idle"}}
    [] e[1] = 2 -> {[s EXCEPT !.c = "open", !.cmet = s.p # "idle", !.pmet = TRUE] : s \in {x \in C : x.c = "idle"}}
    [] e[1] = 1 -> {[s EXCEPT !.p = "idle"] :
                      s \in {x \in C : x.p = Result(e[2]) /\ (Len(e) > 2 => RoomOk(e[3], cap - Len(x.q), x.pmet))}}
    [] e[1] = 3 -> {[s EXCEPT !.c = "idle", !.v = <<>>] :
                      s \in {x \in C : /\ x.c = Result(e[2]) /\ x.v = SubSeq(e, 4, Len(e))
                                       /\ (e[3] # -1 => RoomOk(e[3], Len(x.q), x.cmet))}}
    [] e[1] = 8 -> C
    [] OTHER -> {}
QRun(h, cap, size) == FoldLeft(LAMBDA C, e : TLCEval(QStep(C, e, cap, size)), QBegin, h)
QAllowed(h, cap, size) == QRun(h, cap, size) # {}

(* Long runs of one call by one thread.  The items are 1, 2, 3, ..., so the contents are the items taken+1..put.
   A run:  <<kind, calls, succeeded, first report, last report, first item, last item, breaks>>
   where a break is a report or an item that does not continue the one before it                             *)
BulkStep(s, run, cap) ==
  LET inside == s.put - s.taken
      calls == run[2]
      room == IF run[1] = 0 THEN cap - inside ELSE inside
      done == Min({calls, room})
      Report(k) == IF k <= room THEN room - k ELSE 0
      from == IF done = 0 THEN 0 ELSE (IF run[1] = 0 THEN s.put ELSE s.taken) + 1
  IN [ok |-> s.ok /\ SubSeq(run, 3, 8) = <<done, Report(1), Report(calls), from, IF done = 0 THEN 0 ELSE from + done - 1, 0>>,
      put |-> IF run[1] = 0 THEN s.put + done ELSE s.put,
      taken |-> IF run[1] = 0 THEN s.taken ELSE s.taken + done]
BulkAllowed(runs, cap) == FoldLeft(LAMBDA s, run : TLCEval(BulkStep(s, run, cap)), [ok |-> TRUE, put |-> 0, taken |-> 0], runs).ok

PowerOfTwo(n) == \E k \in 1..30 : 2^k = n
QueueMatch(e) ==
  CASE e.op = "queue" -> \A i \in 1..Len(e.r.hists) : QAllowed(e.r.hists[i], e.a[2] - 1, e.a[3])
    [] e.op = "qseq" -> /\ e.r.made = (IF e.a[2] >= 2 /\ PowerOfTwo(e.a[2]) THEN 1 ELSE 0)
                        /\ e.r.gone = 1
                        /\ QAllowed(e.r.hists[1], e.a[2] - 1, e.a[3])
    [] e.op = "qbulk" -> /\ e.r.made = 1 /\ e.r.gone = 1
                         /\ Len(e.r.runs) = (Len(e.a) - 2) \div 2
                         /\ \A i \in DOMAIN e.r.runs : SubSeq(e.r.runs[i], 1, 2) = SubSeq(e.a, 2 * i + 1, 2 * i + 2)
                         /\ BulkAllowed(e.r.runs, e.a[2] - 1)
    [] e.op = "qhuge" -> e.r = [made |-> 1, got |-> e.a[2] - 1, bad |-> 0]
    [] e.op = "qstress" -> e.r = [got |-> e.a[4], bad |-> 0]
    [] OTHER -> FALSE
=============================================================================
