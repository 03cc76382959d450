----------------------------- MODULE RBMachine -----------------------------
(* The red-black tree as the library balances it - nodes with parent links,
   recolouring and rotations - refines a sorted set and stays balanced.      *)
EXTENDS Containers
CONSTANTS N                       \* keys 1..N; the node of a key is the key, 0 is no node
VARIABLES t, m
Nil == 0
Node(t1, x) == t1.n[x]
L(t1, x) == t1.n[x].l
R(t1, x) == t1.n[x].r
P(t1, x) == t1.n[x].p
Red(t1, x) == x # Nil /\ t1.n[x].c = 1
SetL(t1, x, y) == [t1 EXCEPT !.n[x].l = y]
SetR(t1, x, y) == [t1 EXCEPT !.n[x].r = y]
SetP(t1, x, y) == IF x = Nil THEN t1 ELSE [t1 EXCEPT !.n[x].p = y]
Paint(t1, x, c) == IF x = Nil THEN t1 ELSE [t1 EXCEPT !.n[x].c = c]
Swap1(t1, p, x, y) ==              \* y takes the place of x under p
  IF p = Nil THEN [t1 EXCEPT !.root = y] ELSE IF L(t1, p) = x THEN SetL(t1, p, y) ELSE SetR(t1, p, y)
RotL(t1, x) == LET y == R(t1, x)  a == SetP(SetR(t1, x, L(t1, y)), L(t1, y), x)
                   b == Swap1(SetP(a, y, P(t1, x)), P(t1, x), x, y) IN SetP(SetL(b, y, x), x, y)
RotR(t1, x) == LET y == L(t1, x)  a == SetP(SetL(t1, x, R(t1, y)), R(t1, y), x)
                   b == Swap1(SetP(a, y, P(t1, x)), P(t1, x), x, y) IN SetP(SetR(b, y, x), x, y)
RECURSIVE FixIn(_, _)
FixIn(t1, e) ==
  LET p == P(t1, e) IN
  IF ~Red(t1, p) THEN Paint(t1, t1.root, 0)
  ELSE LET g == P(t1, p)  left == p = L(t1, g)  u == IF left THEN R(t1, g) ELSE L(t1, g) IN
       IF Red(t1, u) THEN FixIn(Paint(Paint(Paint(t1, u, 0), p, 0), g, 1), g)
       ELSE LET inner == (IF left THEN R(t1, p) ELSE L(t1, p)) = e
                t2 == IF inner THEN (IF left THEN RotL(t1, p) ELSE RotR(t1, p)) ELSE t1
                q == IF inner THEN e ELSE p
                t3 == Paint(Paint(t2, q, 0), g, 1)
                t4 == IF left THEN RotR(t3, g) ELSE RotL(t3, g)
            IN FixIn(t4, IF inner THEN p ELSE e)
RECURSIVE Place(_, _, _)
Place(t1, k, x) ==                 \* where the descent for k ends
  LET y == IF k < x THEN L(t1, x) ELSE R(t1, x) IN IF y = Nil THEN x ELSE Place(t1, k, y)
Insert1(t1, k) ==
  IF t1.root = Nil THEN FixIn([t1 EXCEPT !.root = k, !.n[k] = [l |-> 0, r |-> 0, p |-> 0, c |-> 1]], k)
  ELSE LET p == Place(t1, k, t1.root)
           t2 == [t1 EXCEPT !.n[k] = [l |-> 0, r |-> 0, p |-> p, c |-> 1]]
       IN FixIn(IF k < p THEN SetL(t2, p, k) ELSE SetR(t2, p, k), k)
RECURSIVE FixOut(_, _, _)
FixOut(t1, p, e) ==
  IF Red(t1, e) \/ e = t1.root THEN Paint(t1, e, 0)
  ELSE LET left == L(t1, p) = e
           Sib(z) == IF left THEN R(z, p) ELSE L(z, p)
           Near(z, x) == IF left THEN L(z, x) ELSE R(z, x)
           Far(z, x) == IF left THEN R(z, x) ELSE L(z, x)
           In(z, x) == IF left THEN RotL(z, x) ELSE RotR(z, x)
           Out(z, x) == IF left THEN RotR(z, x) ELSE RotL(z, x)
           a == IF Red(t1, Sib(t1)) THEN In(Paint(Paint(t1, Sib(t1), 0), p, 1), p) ELSE t1
           s == Sib(a)
       IN IF ~Red(a, L(a, s)) /\ ~Red(a, R(a, s)) THEN FixOut(Paint(a, s, 1), P(a, p), p)
          ELSE LET b == IF Red(a, Far(a, s)) THEN a ELSE Out(Paint(Paint(a, Near(a, s), 0), s, 1), s)
                   w == Sib(b)
                   c == Paint(Paint(Paint(b, w, Node(b, p).c), p, 0), Far(b, w), 0)
                   d == In(c, p)
               IN Paint(d, d.root, 0)
RECURSIVE Leftmost(_, _)
Leftmost(t1, x) == IF L(t1, x) = Nil THEN x ELSE Leftmost(t1, L(t1, x))
Remove1(t1, k) ==
  IF L(t1, k) # Nil /\ R(t1, k) # Nil THEN
    LET e == Leftmost(t1, R(t1, k))  ch == R(t1, e)  c == Node(t1, e).c  p0 == P(t1, e)
        a == Swap1(SetP(t1, ch, p0), p0, e, ch)
        p == IF p0 = k THEN e ELSE p0
        b == [a EXCEPT !.n[e] = a.n[k]]
        d == Swap1(b, P(b, e), k, e)
        f == SetP(SetP(d, L(d, e), e), R(d, e), e)
    IN IF c = 0 THEN FixOut(f, p, ch) ELSE f
  ELSE LET ch == IF L(t1, k) = Nil THEN R(t1, k) ELSE L(t1, k)  p == P(t1, k)
           a == Swap1(SetP(t1, ch, p), p, k, ch)
       IN IF Node(t1, k).c = 0 THEN FixOut(a, p, ch) ELSE a
Blank == [l |-> 0, r |-> 0, p |-> 0, c |-> 0]
Init == t = [root |-> 0, n |-> [x \in 1..N |-> Blank]] /\ m = {}
Next == \E k \in 1..N :
  IF k \in m THEN m' = m \ {k} /\ t' = [Remove1(t, k) EXCEPT !.n[k] = Blank]
  ELSE m' = m \cup {k} /\ t' = Insert1(t, k)
Spec == Init /\ [][Next]_<<t, m>>
RECURSIVE InOrder(_)
InOrder(x) == IF x = Nil THEN <<>> ELSE InOrder(L(t, x)) \o <<x>> \o InOrder(R(t, x))
RECURSIVE Height(_)
Height(x) == IF x = Nil THEN 0 ELSE 1 + MaxOf(Height(L(t, x)), Height(R(t, x)))
RECURSIVE Black(_)                 \* black nodes on every way down, or -1000 when they differ
Black(x) == IF x = Nil THEN 0 ELSE LET a == Black(L(t, x))  b == Black(R(t, x)) IN
            IF a # b THEN -1000 ELSE a + (IF Red(t, x) THEN 0 ELSE 1)
Refines == InOrder(t.root) = SetToSortSeq(m, LAMBDA x, y : x < y)
Linked == \A x \in m : (L(t, x) # Nil => P(t, L(t, x)) = x) /\ (R(t, x) # Nil => P(t, R(t, x)) = x) /\ (P(t, x) = Nil) = (t.root = x)
RedRule == \A x \in m : Red(t, x) => ~Red(t, L(t, x)) /\ ~Red(t, R(t, x))
Balanced == Black(t.root) >= 0 /\ ~Red(t, t.root) /\ DeepEnough(Height(t.root), Cardinality(m))
=============================================================================
