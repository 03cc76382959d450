---------------------------- MODULE ListMachine ----------------------------
(* Doubly linked lists as the library links them: previous and next of each
   item, head and tail of each list; refines two sequences.                  *)
EXTENDS Containers
CONSTANTS N
VARIABLES h, q                     \* h: the pointers; q: the two sequences.  0 is null, -1 marks an item on no list
Items == 1..N
Blank == [prev |-> -1, next |-> -1]
PrependAt(z, t, x) ==
  LET a == IF z.head[t] # 0 THEN [z EXCEPT !.e[z.head[t]].prev = x] ELSE [z EXCEPT !.tail[t] = x] IN
  [a EXCEPT !.e[x] = [prev |-> 0, next |-> a.head[t]], !.head[t] = x]
AppendAt(z, t, x) ==
  LET a == IF z.tail[t] # 0 THEN [z EXCEPT !.e[z.tail[t]].next = x] ELSE [z EXCEPT !.head[t] = x] IN
  [a EXCEPT !.e[x] = [prev |-> a.tail[t], next |-> 0], !.tail[t] = x]
Unlink(z, t, x) ==
  LET a == IF z.e[x].next # 0 THEN [z EXCEPT !.e[z.e[x].next].prev = z.e[x].prev] ELSE [z EXCEPT !.tail[t] = z.e[x].prev]
      b == IF a.e[x].prev # 0 THEN [a EXCEPT !.e[a.e[x].prev].next = a.e[x].next] ELSE [a EXCEPT !.head[t] = a.e[x].next]
  IN [b EXCEPT !.e[x] = Blank]
Before(z, t, y, x) ==
  IF z.e[y].prev = 0 THEN PrependAt(z, t, x)
  ELSE [z EXCEPT !.e[x] = [prev |-> z.e[y].prev, next |-> y], !.e[y].prev = x, !.e[z.e[y].prev].next = x]
After(z, t, y, x) ==
  IF z.e[y].next = 0 THEN AppendAt(z, t, x)
  ELSE [z EXCEPT !.e[x] = [prev |-> y, next |-> z.e[y].next], !.e[y].next = x, !.e[z.e[y].next].prev = x]
Chain(z, t, o) ==
  LET a == IF z.head[t] = 0 THEN [z EXCEPT !.head[t] = z.head[o], !.tail[t] = z.tail[o]]
           ELSE IF z.head[o] # 0 THEN [z EXCEPT !.e[z.tail[t]].next = z.head[o], !.e[z.head[o]].prev = z.tail[t], !.tail[t] = z.tail[o]]
           ELSE z
  IN [a EXCEPT !.head[o] = 0, !.tail[o] = 0]
Free == Items \ (Range(q[1]) \cup Range(q[2]))
Init == h = [head |-> <<0, 0>>, tail |-> <<0, 0>>, e |-> [x \in Items |-> Blank]] /\ q = <<<<>>, <<>>>>
Do(z, o, x, y) == h' = z /\ q' = ListStep(q, o, x, y)
Next ==
  \/ \E x \in Free, t \in {1, 2} : Do(AppendAt(h, t, x), 0, x, t - 1) \/ Do(PrependAt(h, t, x), 1, x, t - 1)
  \/ \E t \in {1, 2} : \E x \in Range(q[t]) : Do(Unlink(h, t, x), 2, x, t - 1)
  \/ \E x \in Free, t \in {1, 2} : \E y \in Range(q[t]) : Do(Before(h, t, y, x), 3, x, y) \/ Do(After(h, t, y, x), 4, x, y)
  \/ \E t \in {1, 2} : Do(Chain(h, t, 3 - t), 5, 0, t - 1)
Spec == Init /\ [][Next]_<<h, q>>
RECURSIVE Fore(_, _)
Fore(x, n) == IF x \in {0, -1} \/ n = 0 THEN <<>> ELSE <<x>> \o Fore(h.e[x].next, n - 1)
RECURSIVE Back(_, _)
Back(x, n) == IF x \in {0, -1} \/ n = 0 THEN <<>> ELSE <<x>> \o Back(h.e[x].prev, n - 1)
Refines == \A t \in {1, 2} : Fore(h.head[t], N + 1) = q[t] /\ Back(h.tail[t], N + 1) = Reverse(q[t])
Marked == {x \in Items : h.e[x].prev # -1} = Range(q[1]) \cup Range(q[2])
=============================================================================
