---------------------------- MODULE HeapMachine ----------------------------
(* A binary heap in an array, moving items the way the library does: it
   refines the bag of Libmy!HeapStep.                                         *)
EXTENDS Libmy
CONSTANTS Keys, MaxN
VARIABLES v, bag, op, ret, was
vars == <<v, bag, op, ret, was>>
Less(x, y) == x[1] < y[1]
RECURSIVE Rise(_, _, _)                \* the item at pos (1-based) moves toward the root while less than its parent
Rise(a, pos, item) ==
  IF pos = 1 \/ ~Less(item, a[pos \div 2]) THEN [a EXCEPT ![pos] = item]
  ELSE Rise([a EXCEPT ![pos] = a[pos \div 2]], pos \div 2, item)
RECURSIVE Sink(_, _, _)                \* the item at pos sinks to a leaf along least children, then rises
Sink(a, pos, item) ==
  LET c == 2 * pos  r == c + 1 IN
  IF c > Len(a) THEN Rise(a, pos, item)
  ELSE LET k == IF r <= Len(a) /\ ~Less(a[c], a[r]) THEN r ELSE c IN Sink([a EXCEPT ![pos] = a[k]], k, item)
Ids == 1..(MaxN + 1)
Free == CHOOSE i \in Ids : \A x \in Range(v) : x[2] # i
Init == v = <<>> /\ bag = {} /\ op = "init" /\ ret = None /\ was = {}
Step(o, v2, b2, r) == op' = o /\ v' = v2 /\ bag' = b2 /\ ret' = r /\ was' = bag
Push == Len(v) < MaxN /\ \E k \in Keys : LET x == <<k, Free>> IN Step("push", Rise(Append(v, x), Len(v) + 1, x), bag \cup {x}, None)
Pop == IF v = <<>> THEN Step("pop", v, bag, None)
       ELSE LET last == v[Len(v)]  w == SubSeq(v, 1, Len(v) - 1) IN
            IF w = <<>> THEN Step("pop", w, bag \ {last}, last) ELSE Step("pop", Sink(w, 1, last), bag \ {v[1]}, v[1])
Replace == \E k \in Keys : LET x == <<k, Free>> IN
       IF v = <<>> THEN Step("replace", v, bag, None) ELSE Step("replace", Sink(v, 1, x), (bag \ {v[1]}) \cup {x}, v[1])
Next == Push \/ Pop \/ Replace
Spec == Init /\ [][Next]_vars
Ordered == \A i \in 2..Len(v) : ~Less(v[i], v[i \div 2])
Refines == Range(v) = bag /\ Len(v) = Cardinality(bag)
Answers == op \in {"pop", "replace"} => IF was = {} THEN ret = None ELSE ret \in Least(was)
Peek == v # <<>> => v[1] \in Least(bag)
=============================================================================
