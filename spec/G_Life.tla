------------------------------- MODULE G_Life -------------------------------
(* Every history of N steps that the object life cycle allows, over one message
   slot (and a second to interfere) and two RRset slots.  The pool is fixed: 0, 1
   acceptable messages, 2, 3 damaged, 4 too short, 5 an RRset, 7 a cut one.   *)
EXTENDS Lifecycle, Json, IOUtils
VARIABLE done
N == atoi(IOEnv.N)
Steps == {<<OpParse, 0, 0, 0>>, <<OpParse, 0, 1, 0>>, <<OpParse, 0, 2, 0>>, <<OpParse, 0, 3, 0>>, <<OpParse, 0, 4, 0>>, <<OpParse, 1, 0, 0>>,
          <<OpDeser, 0, 5, 0>>, <<OpDeser, 0, 7, 0>>, <<OpDeser, 1, 8, 0>>, <<OpClearM, 0, 0, 0>>, <<OpClearS, 0, 0, 0>>, <<OpClearS, 1, 0, 0>>,
          <<OpFold, 0, 0, 0>>, <<OpSort, 0, 0, 0>>, <<OpFold, 1, 0, 0>>, <<OpSort, 1, 0, 0>>, <<OpXfer, 0, 0, 1>>, <<OpRenderM, 0, 0, 0>>,
          <<OpRenderS, 0, 0, 0>>, <<OpSer, 0, 0, 0>>, <<OpTake, 0, 0, 0>>, <<OpTake, 0, 0, 1>>, <<OpTake, 0, 1, 0>>, <<OpFoldIn, 0, 0, 0>>, <<OpSortIn, 0, 1, 0>>, <<OpFoldIn, 0, 1, 0>>,
          <<OpDropSet, 0, 0, 0>>, <<OpDropRr, 0, 1, 0>>, <<OpDropSec, 0, 1, 0>>}
(* the shape of the objects: 0 cleared, 1 whole, 2 in part; sets a message has *)
Shape0 == [m |-> <<0, 0>>, s |-> <<0, 0, 0>>]
Goes(st, w) ==
  LET op == w[1]  x == w[2] + 1  z == w[4] + 1  y == w[3] IN
  CASE op = OpParse -> IF st.m[x] = 0 THEN {[st EXCEPT !.m[x] = IF y <= 1 THEN 1 ELSE 0]} ELSE {}
    [] op = OpDeser -> IF st.s[x] = 0 THEN {[st EXCEPT !.s[x] = IF y <= 6 THEN 1 ELSE 0]} ELSE {}
    [] op = OpClearM -> {[st EXCEPT !.m[x] = 0]}
    [] op = OpClearS -> {[st EXCEPT !.s[x] = 0]}
    [] op \in {OpFold, OpSort, OpRenderS, OpSer} -> IF st.s[x] = 1 THEN {st} ELSE {}
    [] op = OpXfer -> IF st.s[x] = 1 /\ st.s[z] = 0 THEN {[st EXCEPT !.s[z] = 1]} ELSE {}
    [] op \in {OpRenderM, OpFoldIn, OpSortIn} -> IF st.m[x] = 1 THEN {st} ELSE {}
    [] op = OpTake -> IF st.m[x] = 1 /\ st.s[z] = 0 /\ y = 0 THEN {[st EXCEPT !.s[z] = 1]} ELSE IF st.m[x] = 1 /\ st.s[z] = 0 THEN {[st EXCEPT !.s[z] = 1]} ELSE {}
    [] OTHER -> IF st.m[x] # 0 THEN {[st EXCEPT !.m[x] = 2]} ELSE {}
RECURSIVE Progs(_)
Progs(n) ==      \* {<<shape, steps>>}
  IF n = 0 THEN {<<Shape0, <<>>>>}
  ELSE UNION {UNION {{<<t, p[2] \o w>> : t \in Goes(p[1], w)} : w \in Steps} : p \in Progs(n - 1)}
Vecs == LET ps == SetToSeq({p[2] : p \in Progs(N)}) IN [i \in 1..Len(ps) |-> [prog |-> ps[i]]]
Init == done = ndJsonSerialize(IOEnv.OUT, Vecs)
Spec == Init /\ [][FALSE]_done
=============================================================================
