----------------------------- MODULE Containers -----------------------------
(* Ordered trees and doubly linked lists, as what their users see: a sorted
   set of keyed items, and two sequences over one set of items.              *)
EXTENDS Bytes

(* ------------------------------- trees ---------------------------------- *)
(* m: set of <<key, id>>; a program is octets, two per operation.  kind 0 is
   the red-black tree, kind 1 the splay tree (which has no search for a
   neighbour and no way back).                                               *)
Keys(m) == {x[1] : x \in m}
IdOf(m, k) == (CHOOSE x \in m : x[1] = k)[2]
LowestOf(ks) == CHOOSE k \in ks : \A j \in ks : k <= j
HighestOf(ks) == CHOOSE k \in ks : \A j \in ks : k >= j
IdOrNone(m, ks, pick(_)) == IF ks = {} THEN 0 ELSE IdOf(m, pick(ks))
Sorted(m) == LET s == SetToSortSeq(m, LAMBDA x, y : x[1] < y[1]) IN [i \in 1..Len(s) |-> s[i][2]]
DeepEnough(h, n) == 2^MinOf(h, 30) <= (n + 1) * (n + 1)    \* the red-black bound: height <= 2 log2(n + 1)
TreeAnswer(m, kind, o, k, id, r) ==
  CASE o \in {0, 1, 2} -> r = (IF k \in Keys(m) THEN IdOf(m, k) ELSE 0)
    [] o = 3 -> r = IF kind = 1 THEN 0 ELSE IdOrNone(m, {j \in Keys(m) : j >= k}, LowestOf)
    [] o = 4 -> r = IdOrNone(m, Keys(m), LowestOf)
    [] o = 5 -> r = IdOrNone(m, Keys(m), HighestOf)
    [] o = 6 -> r = IF k \in Keys(m) THEN IdOrNone(m, {j \in Keys(m) : j > k}, LowestOf) ELSE 0
    [] o = 7 -> r = IF kind = 0 /\ k \in Keys(m) THEN IdOrNone(m, {j \in Keys(m) : j < k}, HighestOf) ELSE 0
    [] o = 8 -> LET up == Sorted(m) IN
         /\ r.up = up /\ r.empty = (IF m = {} THEN 1 ELSE 0)
         /\ r.down = (IF kind = 0 THEN Reverse(up) ELSE <<>>)
         /\ kind = 0 => DeepEnough(r.depth, Cardinality(m))
TreeStep(m, o, k, id) ==
  CASE o = 0 -> IF k \in Keys(m) THEN m ELSE m \cup {<<k, id>>}
    [] o = 1 -> {x \in m : x[1] # k}
    [] OTHER -> m
RECURSIVE TreeRun(_, _, _, _, _)
TreeRun(m, kind, p, out, i) ==
  IF i > Len(p) \div 2 THEN [ok |-> i = Len(out) + 1, m |-> m]
  ELSE IF i <= Len(out) /\ TreeAnswer(m, kind, p[2 * i - 1], p[2 * i], i, out[i])
       THEN TreeRun(TLCEval(TreeStep(m, p[2 * i - 1], p[2 * i], i)), kind, p, out, i + 1)
       ELSE [ok |-> FALSE, m |-> m]
MatchTree(a, r) ==
  LET s == TreeRun({}, a[1], a[2], r.out, 1) IN
  s.ok /\ r.left = Cardinality(s.m) /\ r.end = 1

(* -------------------------------- lists --------------------------------- *)
(* l: two sequences.  An operation that cannot apply (an item already on a
   list, one that is on none) never occurs in a program.                     *)
At2(l, x) == IF \E i \in 1..Len(l[1]) : l[1][i] = x THEN 1 ELSE IF \E i \in 1..Len(l[2]) : l[2][i] = x THEN 2 ELSE 0
PosIn(q, x) == CHOOSE i \in 1..Len(q) : q[i] = x
Without(q, x) == SelectSeq(q, LAMBDA y : y # x)
ListStep(l, o, x, y) ==
  LET t == 1 + (y % 2)  ty == At2(l, y)  tx == At2(l, x) IN
  CASE o \in {0, 6, 8} -> [l EXCEPT ![t] = Append(@, x)]
    [] o \in {1, 9} -> [l EXCEPT ![t] = <<x>> \o @]
    [] o \in {2, 7} -> [l EXCEPT ![tx] = Without(@, x)]
    [] o = 3 -> LET i == PosIn(l[ty], y) IN [l EXCEPT ![ty] = SubSeq(@, 1, i - 1) \o <<x>> \o SubSeq(@, i, Len(@))]
    [] o = 4 -> LET i == PosIn(l[ty], y) IN [l EXCEPT ![ty] = SubSeq(@, 1, i) \o <<x>> \o SubSeq(@, i + 1, Len(@))]
    [] o = 5 -> [l EXCEPT ![t] = l[t] \o l[3 - t], ![3 - t] = <<>>]
ListView(q) == [up |-> q, down |-> Reverse(q), empty |-> IF q = <<>> THEN 1 ELSE 0]
ListShown(l) == [lists |-> <<ListView(l[1]), ListView(l[2])>>,
                 linked |-> SetToSortSeq(Range(l[1]) \cup Range(l[2]), LAMBDA i, j : i < j)]
RECURSIVE ListRun(_, _, _, _)
ListRun(l, p, out, i) ==
  IF i > Len(p) \div 3 THEN i = Len(out) + 1
  ELSE LET n == TLCEval(ListStep(l, p[3 * i - 2] % 128, p[3 * i - 1], p[3 * i])) IN
       i <= Len(out) /\ out[i] = ListShown(n) /\ ListRun(n, p, out, i + 1)
MatchList(a, r) == ListRun(<<<<>>, <<>>>>, a[1], r.out, 1)
=============================================================================
