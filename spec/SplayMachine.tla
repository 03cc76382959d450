---------------------------- MODULE SplayMachine ----------------------------
(* The splay tree as the library restructures it, top down, on every access. *)
EXTENDS Containers
CONSTANTS N
VARIABLES t, m, ret, want
Nil == <<>>                        \* a tree is Nil or <<left, key, right>>
RECURSIVE JoinL(_, _)
JoinL(ls, x) == IF ls = <<>> THEN x ELSE <<ls[1][1], ls[1][2], JoinL(Tail(ls), x)>>
RECURSIVE JoinR(_, _)
JoinR(rs, x) == IF rs = <<>> THEN x ELSE <<JoinR(Tail(rs), x), rs[1][1], rs[1][2]>>
Assemble(x, ls, rs) == <<JoinL(ls, x[1]), x[2], JoinR(rs, x[3])>>
RECURSIVE Down(_, _, _, _)         \* Cmp: where what is looked for lies from a key (-1 left, 0 there, 1 right)
Down(x, C(_), ls, rs) ==
  LET c == C(x[2]) IN
  IF c = 0 THEN Assemble(x, ls, rs)
  ELSE IF c < 0 THEN
    IF x[1] = Nil THEN Assemble(x, ls, rs)
    ELSE LET y == IF C(x[1][2]) < 0 THEN <<x[1][1], x[1][2], <<x[1][3], x[2], x[3]>>>> ELSE x IN
         IF y[1] = Nil THEN Assemble(y, ls, rs) ELSE Down(y[1], C, ls, Append(rs, <<y[2], y[3]>>))
  ELSE
    IF x[3] = Nil THEN Assemble(x, ls, rs)
    ELSE LET y == IF C(x[3][2]) > 0 THEN <<<<x[1], x[2], x[3][1]>>, x[3][2], x[3][3]>> ELSE x IN
         IF y[3] = Nil THEN Assemble(y, ls, rs) ELSE Down(y[3], C, Append(ls, <<y[1], y[2]>>), rs)
Seek(k, x) == IF k < x THEN -1 ELSE IF k > x THEN 1 ELSE 0
Splay(x, k) == Down(x, LAMBDA y : Seek(k, y), <<>>, <<>>)
Insert1(x, k) ==
  IF x = Nil THEN <<Nil, k, Nil>>
  ELSE LET s == Splay(x, k) IN
       IF k < s[2] THEN <<s[1], k, <<Nil, s[2], s[3]>>>> ELSE IF k > s[2] THEN <<<<s[1], s[2], Nil>>, k, s[3]>> ELSE s
Remove1(x, k) ==
  LET s == Splay(x, k) IN
  IF s[2] # k THEN s ELSE IF s[1] = Nil THEN s[3] ELSE LET l == Splay(s[1], k) IN <<l[1], l[2], s[3]>>
Edge(x, d) == Down(x, LAMBDA y : d, <<>>, <<>>)
RECURSIVE Leftmost(_)
Leftmost(x) == IF x[1] = Nil THEN x[2] ELSE Leftmost(x[1])
Init == t = Nil /\ m = {} /\ ret = 0 /\ want = 0
Step(t2, m2, r, w) == t' = t2 /\ m' = m2 /\ ret' = r /\ want' = w
Next ==
  \/ \E k \in 1..N : Step(Insert1(t, k), m \cup {k}, 0, 0)
  \/ \E k \in 1..N : t # Nil /\ Step(Remove1(t, k), m \ {k}, 0, 0)
  \/ \E k \in 1..N : t # Nil /\ LET s == Splay(t, k) IN Step(s, m, IF s[2] = k THEN k ELSE 0, IF k \in m THEN k ELSE 0)
  \/ \E d \in {-1, 1} : t # Nil /\ LET s == Edge(t, d) IN Step(s, m, s[2], IF d < 0 THEN LowestOf(m) ELSE HighestOf(m))
  \/ \E k \in m : LET s == Splay(t, k)  up == {x \in m : x > k} IN
       Step(s, m, IF s[3] = Nil THEN 0 ELSE Leftmost(s[3]), IF up = {} THEN 0 ELSE LowestOf(up))
Spec == Init /\ [][Next]_<<t, m, ret, want>>
RECURSIVE InOrder(_)
InOrder(x) == IF x = Nil THEN <<>> ELSE InOrder(x[1]) \o <<x[2]>> \o InOrder(x[3])
Refines == InOrder(t) = SetToSortSeq(m, LAMBDA x, y : x < y)
Answers == ret = want
=============================================================================
