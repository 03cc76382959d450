----------------------------- MODULE Lifecycle -----------------------------
(* Histories over message and RRset objects as a user sees them: what each
   object holds after every operation, and that storage belongs to exactly the
   object that acquired it.

   A history is [prog, pool]: prog is a sequence of steps <<op, x, y, z>> on
   message slots 0..1 and RRset slots 0..2; pool holds the octet strings parsed.
   An object is <<>> when cleared, else <<value>>; [any |-> TRUE] is a value not
   specified any more (folding what no message could carry), [part |-> TRUE]
   one of which parts were cleared: it can only be cleared further.             *)
EXTENDS TextEvents

NMsg == 2
NSet == 3
OpParse == 1   OpDeser == 2   OpClearM == 3   OpClearS == 4   OpFold == 5   OpSort == 6   OpXfer == 7   OpRenderM == 8
OpRenderS == 9 OpTake == 10   OpFoldIn == 11  OpSortIn == 12  OpDropSet == 13 OpDropRr == 14 OpDropSec == 15 OpSer == 16
Unspec == [any |-> TRUE]
Part == [part |-> TRUE]
IsAny(v) == DOMAIN v = {"any"}
IsPart(v) == DOMAIN v = {"part"}

(* ------------------------- values of the operations ------------------------ *)
FoldedSet(v) ==
  IF IsAny(v) THEN v
  ELSE IF \A i \in 1..Len(v.d) : ParserData(v.d[i], v.t, v.c) THEN FoldRrset(v) ELSE Unspec
SortedSet(v) == IF IsAny(v) THEN v ELSE [v EXCEPT !.d = SortSeq(v.d, ItemLess)]
(* sets of a message, counted across the sections from 0 *)
SetIndex(v, y) ==     \* <<section, index>>, or <<0, 0>>
  LET n(i) == Len(v.sets[i]) IN
  IF y < n(1) THEN <<1, y + 1>> ELSE IF y < n(1) + n(2) THEN <<2, y - n(1) + 1>>
  ELSE IF y < n(1) + n(2) + n(3) THEN <<3, y - n(1) - n(2) + 1>>
  ELSE IF y < n(1) + n(2) + n(3) + n(4) THEN <<4, y - n(1) - n(2) - n(3) + 1>> ELSE <<0, 0>>
SetOf(v, y) == LET k == SetIndex(v, y) IN v.sets[k[1]][k[2]]
WithSet(v, y, x) == LET k == SetIndex(v, y) IN
  [v EXCEPT !.sets[k[1]][k[2]] = x]
MsgValue(b) == LET m == Msg(b) IN [id |-> m.id, flags |-> m.flags, rcode |-> m.rcode, edns |-> m.edns, rrs |-> m.rrs, sets |-> m.sets]

(* ------------------------------ when possible ------------------------------ *)
(* st: [m, s: objects; ownm, owns: blocks each holds] *)
LifeInit == [m |-> [i \in 1..NMsg |-> <<>>], s |-> [i \in 1..NSet |-> <<>>], ownm |-> [i \in 1..NMsg |-> 0], owns |-> [i \in 1..NSet |-> 0], ok |-> TRUE]
Usable(o) == o # <<>> /\ ~IsPart(o[1])
Shown(o, v) == o # <<>> /\ ~IsAny(o[1]) /\ ~IsPart(o[1]) => v = o[1]

(* what a step observed: res, d (change in live blocks), o (the value shown), in any case *)
Step(st, w, ev, pool) ==
  LET op == w[1]  x == w[2] + 1  y == w[3]  z == w[4] + 1
      Bad == [st EXCEPT !.ok = FALSE]
      If(c, t) == IF c THEN t ELSE Bad
  IN
  CASE op = OpParse ->       \* a refused message leaves the object cleared
         LET b == pool[y + 1]  m == TLCEval(Msg(b)) IN
         If(st.m[x] = <<>>,
            IF ~m.ok THEN If(ev.res \in 1..15 /\ ev.d = 0, st)
            ELSE If(ev.res = 0 /\ ev.d >= 0, [st EXCEPT !.m[x] = <<MsgValue(b)>>, !.ownm[x] = ev.d]))
    [] op = OpDeser ->       \* what the octets mean is settled by showing the value
         If(st.s[x] = <<>>,
            IF ev.res = 0 THEN If(ev.d >= 0, [st EXCEPT !.s[x] = <<ev.o>>, !.owns[x] = ev.d])
            ELSE If(ev.res \in 1..15 /\ ev.d = 0, st))
    [] op = OpClearM ->      \* shows what was held, then holds nothing, however often
         If(Shown(st.m[x], ev.o) /\ ev.d = 0 - st.ownm[x], [st EXCEPT !.m[x] = <<>>, !.ownm[x] = 0])
    [] op = OpClearS ->
         If(Shown(st.s[x], ev.o) /\ ev.d = 0 - st.owns[x], [st EXCEPT !.s[x] = <<>>, !.owns[x] = 0])
    [] op = OpFold ->
         LET v == TLCEval(FoldedSet(st.s[x][1])) IN
         If(IF IsAny(v) THEN ev.res \in 0..15 ELSE ev.res = 0, [st EXCEPT !.s[x] = <<v>>, !.owns[x] = @ + ev.d])
    [] op = OpSort -> If(ev.res = 0, [st EXCEPT !.s[x] = <<SortedSet(st.s[x][1])>>, !.owns[x] = @ + ev.d])
    [] op = OpXfer ->        \* serialize one, deserialize into another
         If(ev.res = 0 /\ ev.d >= 0, [st EXCEPT !.s[z] = st.s[x], !.owns[z] = ev.d])
    [] op = OpTake ->
         If(ev.res = 0 /\ ev.d >= 0, [st EXCEPT !.s[z] = <<SetOf(st.m[x][1], y)>>, !.owns[z] = ev.d])
    [] op \in {OpRenderM, OpRenderS, OpSer} -> If(ev.d = 0 /\ ev.res = 0, st)
    [] op = OpFoldIn ->
         LET v == TLCEval(FoldedSet(SetOf(st.m[x][1], y))) IN
         If(IF IsAny(v) THEN ev.res \in 0..15 ELSE ev.res = 0, [st EXCEPT !.m[x] = <<WithSet(st.m[x][1], y, v)>>, !.ownm[x] = @ + ev.d])
    [] op = OpSortIn -> If(ev.res = 0, [st EXCEPT !.m[x] = <<WithSet(st.m[x][1], y, SortedSet(SetOf(st.m[x][1], y)))>>, !.ownm[x] = @ + ev.d])
    [] op \in {OpDropSet, OpDropRr, OpDropSec} -> If(ev.d <= 0, [st EXCEPT !.m[x] = <<Part>>, !.ownm[x] = @ + ev.d])
(* may a history take step w next (both ends use this: generator and checker) *)
Enabled(st, w) ==
  LET op == w[1]  x == w[2] + 1  y == w[3]  z == w[4] + 1 IN
  CASE op = OpParse -> st.m[x] = <<>>
    [] op = OpDeser -> st.s[x] = <<>>
    [] op \in {OpClearM, OpClearS} -> TRUE
    [] op \in {OpFold, OpSort, OpRenderS, OpSer} -> Usable(st.s[x])
    [] op = OpXfer -> Usable(st.s[x]) /\ x # z /\ st.s[z] = <<>>
    [] op = OpRenderM -> Usable(st.m[x])
    [] op = OpTake -> Usable(st.m[x]) /\ SetIndex(st.m[x][1], y)[1] > 0 /\ st.s[z] = <<>>
    [] op \in {OpFoldIn, OpSortIn} -> Usable(st.m[x]) /\ SetIndex(st.m[x][1], y)[1] > 0
    [] op \in {OpDropSet, OpDropRr, OpDropSec} -> st.m[x] # <<>>

RECURSIVE LifeRun(_, _, _, _, _)
LifeRun(st, prog, evs, pool, i) ==
  IF i > Len(evs) THEN st
  ELSE LET w == SubSeq(prog, 4 * i - 3, 4 * i) IN
       IF evs[i].skip = 1 THEN (IF Enabled(st, w) THEN [st EXCEPT !.ok = FALSE] ELSE LifeRun(st, prog, evs, pool, i + 1))
       ELSE IF ~Enabled(st, w) THEN [st EXCEPT !.ok = FALSE]
       ELSE LET t == TLCEval(Step(st, w, evs[i], pool)) IN
            IF ~t.ok THEN t ELSE LifeRun(t, prog, evs, pool, i + 1)
(* the harness ends every history by clearing all objects twice *)
MatchLife(a, r) ==
  LET closing == Concat([i \in 1..NMsg |-> <<OpClearM, i - 1, 0, 0>>]) \o Concat([i \in 1..NSet |-> <<OpClearS, i - 1, 0, 0>>])
      prog == a[1] \o closing \o closing
      st == LifeRun(LifeInit, prog, r.steps, Tail(a), 1)
  IN Len(r.steps) = Len(prog) \div 4 /\ st.ok /\ st.ownm = LifeInit.ownm /\ st.owns = LifeInit.owns
LifeMatch(e) == IF e.op = "life" THEN MatchLife(e.a, e.r) ELSE TextMatch(e)
=============================================================================
