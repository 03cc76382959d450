---------------------------- MODULE SpoolMachine ----------------------------
(* Handing out a file, call by call on the file system, while other programs
   add files and the process may stop or a call may fail at any point.       *)
EXTENDS Spool
CONSTANTS Names, MaxAdds
VARIABLES inc, act, pos, got, pc, f, adds, handed, bad
(* inc, act: name -> contents; contents number the additions.  pos: names the
   scan has yet to see; pc/f: the step the call is at and the file it holds;
   handed: contents returned to the caller; bad: calls that failed           *)
vars == <<inc, act, pos, got, pc, f, adds, handed, bad>>
Init == inc = NoFiles /\ act = NoFiles /\ pos = {} /\ got = {} /\ pc = "idle" /\ f = "" /\ adds = 0 /\ handed = {} /\ bad = 0
Add == /\ adds < MaxAdds /\ adds' = adds + 1
       /\ \E n \in Names : ~(n \in DOMAIN inc) /\ inc' = Put(inc, n, adds') /\ pos' \in {pos, pos \cup {n}}
       /\ UNCHANGED <<act, got, pc, f, handed, bad>>
Take == \E n \in DOMAIN act : act' = Drop(act, n) /\ act[n] \in handed /\ UNCHANGED <<inc, pos, got, pc, f, adds, handed, bad>>  \* the consumer is done with a file
Scan == pc = "idle" /\ \E n \in pos : pos' = pos \ {n} /\
          IF n \in DOMAIN inc THEN f' = n /\ pc' = (IF n \in DOMAIN act THEN "unlink" ELSE "rename") /\ UNCHANGED <<inc, act, got, adds, handed, bad>>
          ELSE UNCHANGED <<inc, act, got, pc, f, adds, handed, bad>>
Rewind == pc = "idle" /\ pos = {} /\ pos' = DOMAIN inc /\ UNCHANGED <<inc, act, got, pc, f, adds, handed, bad>>
Unlink == pc = "unlink" /\ pc' = "rename" /\ act' = Drop(act, f) /\ UNCHANGED <<inc, pos, got, f, adds, handed, bad>>
Rename == pc = "rename" /\ pc' = "idle" /\ f' = "" /\
          IF f \in DOMAIN inc THEN inc' = Drop(inc, f) /\ act' = Put(act, f, inc[f]) /\ handed' = handed \cup {inc[f]} /\ got' = got \cup {<<f, inc[f]>>} /\ UNCHANGED <<pos, adds, bad>>
          ELSE UNCHANGED <<inc, act, pos, got, adds, handed, bad>>
Fail == pc # "idle" /\ bad < 2 /\ bad' = bad + 1 /\ pc' = "idle" /\ f' = "" /\ UNCHANGED <<inc, act, pos, got, adds, handed>>
Crash == bad < 2 /\ bad' = bad + 1 /\ pc' = "idle" /\ f' = "" /\ pos' = DOMAIN inc /\ UNCHANGED <<inc, act, got, adds, handed>>
Next == Add \/ Take \/ Scan \/ Rewind \/ Unlink \/ Rename \/ Fail \/ Crash
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Scan) /\ WF_vars(Rewind) /\ WF_vars(Unlink) /\ WF_vars(Rename)
In(g) == {g[n] : n \in DOMAIN g}
(* a file is waiting or was handed out, and never both; it is handed out under its own name with its own contents *)
NothingLost == \A c \in 1..adds : (c \in In(inc)) # (c \in handed)
NotTwice == Cardinality(got) = Cardinality(handed)
Drained == []<>(DOMAIN inc = {} \/ pc # "idle" \/ pos # {})
AllHanded == \A c \in 1..MaxAdds : (c \in In(inc)) ~> (c \in handed)
=============================================================================
