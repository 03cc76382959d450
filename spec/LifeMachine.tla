---------------------------- MODULE LifeMachine ----------------------------
(* Who owns each block while messages and RRsets are built, fail half way, and
   are cleared: the parser and deserializer one allocation at a time, every
   failure point enabled everywhere.  A pointer is a block number, 0 is NULL. *)
EXTENDS Bytes
CONSTANTS MaxRec, MaxSteps
VARIABLES heap, nxt, bad, pc, rr, m, s, want, budget
vars == <<heap, nxt, bad, pc, rr, m, s, want, budget>>

NoRr == [name |-> 0, rdata |-> 0]
NoMsg == [rrsArr |-> 0, rrs |-> <<>>, setArr |-> 0, sets |-> <<>>, opts |-> 0]
NoSet == [name |-> 0, arr |-> 0, rd |-> <<>>]
Init == heap = {} /\ nxt = 1 /\ bad = FALSE /\ pc = "idle" /\ rr = NoRr /\ m = NoMsg /\ s = NoSet /\ want = 0 /\ budget = MaxSteps

(* a sequence of frees, in order; freeing what is not allocated is the defect looked for *)
Live(ps) == SelectSeq(ps, LAMBDA p : p # 0)
Frees(h, ps) ==
  LET q == Live(ps) IN
  [h |-> h \ Range(q), bad |-> Len(q) # Cardinality(Range(q)) \/ ~(Range(q) \subseteq h)]
SetPtrs(x) == <<x.name, x.arr>> \o x.rd
RrPtrs(x) == <<x.name, x.rdata>>
MsgPtrs(x) == <<x.opts, x.rrsArr, x.setArr>> \o ConcatMap(RrPtrs, x.rrs) \o ConcatMap(SetPtrs, x.sets)
ClearedSet == NoSet
ClearedMsg == NoMsg

Idle == pc = "idle" /\ budget > 0
(* ---- a message ---- *)
StartParse == Idle /\ MsgPtrs(m) = MsgPtrs(NoMsg) /\ pc' = "rec" /\ want' = MaxRec /\ budget' = budget - 1 /\ UNCHANGED <<heap, nxt, bad, rr, m, s>>
EndParse == pc = "rec" /\ pc' = "idle" /\ UNCHANGED <<heap, nxt, bad, rr, m, s, want, budget>>
(* the owner name decompresses into a fresh block *)
RecName == pc = "rec" /\ want > 0 /\ rr' = [rr EXCEPT !.name = nxt] /\ heap' = heap \cup {nxt} /\ nxt' = nxt + 1 /\ pc' = "named" /\ want' = want - 1 /\ UNCHANGED <<bad, m, s, budget>>
RecNoName == pc = "rec" /\ want > 0 /\ pc' = "fail" /\ UNCHANGED <<heap, nxt, bad, rr, m, s, want, budget>>
(* header or data unacceptable: the name is given back *)
RecBad == pc = "named" /\ pc' = "fail" /\ rr' = NoRr
          /\ LET f == Frees(heap, <<rr.name>>) IN heap' = f.h /\ bad' = (bad \/ f.bad)
          /\ UNCHANGED <<nxt, m, s, want, budget>>
RecQuestion == pc = "named" /\ pc' = "question" /\ UNCHANGED <<heap, nxt, bad, rr, m, s, want, budget>>
RecData == pc = "named" /\ rr' = [rr EXCEPT !.rdata = nxt] /\ heap' = heap \cup {nxt} /\ nxt' = nxt + 1 /\ pc' = "data" /\ UNCHANGED <<bad, m, s, want, budget>>
(* an OPT record hands its data to the message *)
Opt == pc = "data" /\ m.opts = 0 /\ m' = [m EXCEPT !.opts = rr.rdata] /\ rr' = NoRr /\ pc' = "rec"
       /\ LET f == Frees(heap, <<rr.name>>) IN heap' = f.h /\ bad' = (bad \/ f.bad)
       /\ UNCHANGED <<nxt, s, want, budget>>
(* the record array grows (a reallocation: the old block goes) and takes copies *)
Grown(old, k) == [h |-> Frees(heap, <<old>>).h \cup {k}, bad |-> Frees(heap, <<old>>).bad]
Copy(q) ==   \* q: a question record has no data
  LET g == Grown(m.rrsArr, nxt) IN
  [h |-> g.h \cup {nxt + 1} \cup (IF q THEN {} ELSE {nxt + 2}), bad |-> g.bad, arr |-> nxt, rr |-> [name |-> nxt + 1, rdata |-> IF q THEN 0 ELSE nxt + 2]]
JoinSet == pc = "data" /\ \E k \in 1..Len(m.sets) :
  LET c == Copy(FALSE)
      g == Frees(c.h, <<m.sets[k].arr>>)
      f == Frees(g.h \cup {nxt + 3}, <<rr.name>>) IN     \* the owner name is no longer needed
  /\ m.sets[k].arr # 0
  /\ m' = [m EXCEPT !.rrsArr = c.arr, !.rrs = Append(@, c.rr), !.sets[k].arr = nxt + 3, !.sets[k].rd = Append(@, rr.rdata)]
  /\ heap' = f.h /\ bad' = (bad \/ c.bad \/ g.bad \/ f.bad) /\ rr' = NoRr /\ nxt' = nxt + 4 /\ pc' = "rec" /\ UNCHANGED <<s, want, budget>>
NewSet(q) ==
  LET c == Copy(q)
      g == Frees(c.h, <<m.setArr>>) IN
  /\ m' = [m EXCEPT !.rrsArr = c.arr, !.rrs = Append(@, c.rr), !.setArr = nxt + 3,
                    !.sets = Append(@, IF q THEN [name |-> rr.name, arr |-> 0, rd |-> <<>>] ELSE [name |-> rr.name, arr |-> nxt + 4, rd |-> <<rr.rdata>>])]
  /\ heap' = g.h \cup {nxt + 3} \cup (IF q THEN {} ELSE {nxt + 4}) /\ bad' = (bad \/ c.bad \/ g.bad) /\ rr' = NoRr /\ nxt' = nxt + 5 /\ pc' = "rec"
  /\ UNCHANGED <<s, want, budget>>
NewSetQ == pc = "question" /\ NewSet(TRUE)
NewSetD == pc = "data" /\ NewSet(FALSE)
FailParse == pc = "fail" /\ pc' = "idle" /\ m' = NoMsg
             /\ LET f == Frees(heap, MsgPtrs(m)) IN heap' = f.h /\ bad' = (bad \/ f.bad)
             /\ UNCHANGED <<nxt, rr, s, want, budget>>
ClearMsg == Idle /\ m' = NoMsg /\ budget' = budget - 1
            /\ LET f == Frees(heap, MsgPtrs(m)) IN heap' = f.h /\ bad' = (bad \/ f.bad)
            /\ UNCHANGED <<nxt, pc, rr, s, want>>
(* parts may be cleared first: their pointers become NULL *)
ClearOneRr == Idle /\ budget' = budget - 1 /\ \E k \in 1..Len(m.rrs) : m' = [m EXCEPT !.rrs[k] = NoRr]
              /\ LET f == Frees(heap, RrPtrs(m.rrs[k])) IN heap' = f.h /\ bad' = (bad \/ f.bad)
              /\ UNCHANGED <<nxt, pc, rr, s, want>>
ClearOneSet == Idle /\ budget' = budget - 1 /\ \E k \in 1..Len(m.sets) : m' = [m EXCEPT !.sets[k] = NoSet]
              /\ LET f == Frees(heap, SetPtrs(m.sets[k])) IN heap' = f.h /\ bad' = (bad \/ f.bad)
              /\ UNCHANGED <<nxt, pc, rr, s, want>>
(* ---- an RRset from its serialization ---- *)
StartDeser == Idle /\ SetPtrs(s) = SetPtrs(NoSet) /\ pc' = "dname" /\ budget' = budget - 1 /\ UNCHANGED <<heap, nxt, bad, rr, m, s, want>>
DeserName == pc = "dname" /\ s' = [s EXCEPT !.name = nxt] /\ heap' = heap \cup {nxt} /\ nxt' = nxt + 1 /\ pc' = "dhead" /\ UNCHANGED <<bad, rr, m, want, budget>>
DeserHead == pc = "dhead" /\ \E n \in 0..2 : want' = n /\ s' = [s EXCEPT !.arr = nxt, !.rd = Repeat(0, n)] /\ heap' = heap \cup {nxt} /\ nxt' = nxt + 1 /\ pc' = "ditem" /\ UNCHANGED <<bad, rr, m, budget>>
DeserItem == pc = "ditem" /\ want > 0 /\ s' = [s EXCEPT !.rd[want] = nxt] /\ heap' = heap \cup {nxt} /\ nxt' = nxt + 1 /\ want' = want - 1 /\ UNCHANGED <<bad, rr, m, pc, budget>>
DeserDone == pc = "ditem" /\ want = 0 /\ pc' = "idle" /\ UNCHANGED <<heap, nxt, bad, rr, m, s, want, budget>>
FreeSet(next) == s' = NoSet /\ pc' = next /\ LET f == Frees(heap, SetPtrs(s)) IN heap' = f.h /\ bad' = (bad \/ f.bad)
DeserFail == pc \in {"dname", "dhead", "ditem"} /\ FreeSet("idle") /\ UNCHANGED <<nxt, rr, m, want, budget>>
ClearSet == Idle /\ FreeSet("idle") /\ budget' = budget - 1 /\ UNCHANGED <<nxt, rr, m, want>>

Next == StartParse \/ EndParse \/ RecName \/ RecNoName \/ RecBad \/ RecQuestion \/ RecData \/ Opt \/ JoinSet \/ NewSetQ \/ NewSetD
        \/ FailParse \/ ClearMsg \/ ClearOneRr \/ ClearOneSet \/ StartDeser \/ DeserName \/ DeserHead \/ DeserItem \/ DeserDone \/ DeserFail \/ ClearSet
Spec == Init /\ [][Next]_vars

Reachable == Live(MsgPtrs(m) \o SetPtrs(s) \o RrPtrs(rr))
OwnedOnce == Len(Reachable) = Cardinality(Range(Reachable))
NoDangling == Range(Reachable) \subseteq heap
NoLeak == heap \subseteq Range(Reachable)
NoDoubleFree == ~bad
ClearedIsEmpty == (pc = "idle" /\ m = NoMsg /\ s = NoSet) => heap = {}
(* block numbers are names only *)
View == LET ids == SetToSortSeq(heap \cup Range(Reachable), LAMBDA a, b : a < b)
            R(p) == IF p = 0 THEN 0 ELSE CHOOSE i \in 1..Len(ids) : ids[i] = p
            RS(x) == [name |-> R(x.name), arr |-> R(x.arr), rd |-> MapSeq(R, x.rd)]
            RR(x) == [name |-> R(x.name), rdata |-> R(x.rdata)]
        IN <<bad, pc, RR(rr), [a |-> R(m.rrsArr), b |-> MapSeq(RR, m.rrs), c |-> R(m.setArr), d |-> MapSeq(RS, m.sets), e |-> R(m.opts)], RS(s), want, budget, Cardinality(heap)>>
=============================================================================
