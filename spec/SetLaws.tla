------------------------------- MODULE SetLaws -------------------------------
(* Laws of RRsets, over every short list of small data: there is exactly one
   sorted list, it is that of any rearrangement, and folding keeps what it must;
   and every short list of records is grouped without loss.                    *)
EXTENDS Message
CONSTANTS MaxItems, Wide
VARIABLES list, recs
Items == {<<>>, <<0>>, <<1>>, <<255>>, <<0, 0>>, <<1, 0>>, <<128>>} \cup (IF Wide THEN {<<0, 1>>, <<127, 255, 255>>} ELSE {})
Lists == UNION {[1..k -> Items] : k \in 0..MaxItems}
Rec(n, t, c, ttl, d) == [n |-> n, t |-> t, c |-> c, ttl |-> ttl, d |-> d]
Recs == {Rec(n, t, c, ttl, <<d>>) : n \in {<<1, 97, 0>>, <<1, 65, 0>>, <<1, 98, 0>>}, t \in {1, 46}, c \in {1}, ttl \in {<<0, 1>>, <<0, 2>>}, d \in {<<0, 1, 5>>}}
        \cup {Rec(<<1, 97, 0>>, 1, 3, <<0, 9>>, <<<<7>>>>), Rec(<<1, 97, 0>>, 41, 512, <<0, 0>>, <<<<>>>>)}
RecLists == UNION {[1..k -> Recs] : k \in 0..(IF Wide THEN 3 ELSE 2)}
Init == list = <<>> /\ recs = <<>>
Next == list = <<>> /\ recs = <<>> /\ ((list' \in Lists /\ recs' = <<>>) \/ (recs' \in RecLists /\ list' = <<>>))
Spec == Init /\ [][Next]_<<list, recs>>

(* insertion sort *)
RECURSIVE Insert(_, _)
Insert(x, s) == IF s = <<>> THEN <<x>> ELSE IF ItemLess(x, Head(s)) THEN <<x>> \o s ELSE <<Head(s)>> \o Insert(x, Tail(s))
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>> ELSE Insert(Head(s), Sorted(Tail(s)))
Total == \A x, y \in Items : (x = y) # (ItemLess(x, y) \/ ItemLess(y, x)) /\ ~(ItemLess(x, y) /\ ItemLess(y, x))
Sorts == Ordered(Sorted(list)) /\ Permutes(list, Sorted(list)) /\ Sorted(Reverse(list)) = Sorted(list)
Unique == Len(list) <= 3 => \A p \in Permutations(1..Len(list)) : LET s == [i \in 1..Len(list) |-> list[p[i]]] IN Ordered(s) => s = Sorted(list)

(* Grouping, said without a fold: a set per distinct question of key, in order of
   first appearance, with the first spelling, the least TTL and all data in order. *)
SameKey(x, y) == Lower(x.n) = Lower(y.n) /\ x.t = y.t /\ x.c = y.c
Sets == Group(recs, 2)
First(i) == \A j \in 1..(i - 1) : ~SameKey(recs[j], recs[i])
Firsts == SelectSeq([i \in 1..Len(recs) |-> i], First)
Members(i) == SelectSeq([j \in 1..Len(recs) |-> j], LAMBDA j : SameKey(recs[j], recs[i]))
Grouped ==
  /\ Len(Sets) = Len(Firsts)
  /\ \A k \in 1..Len(Sets) :
       LET i == Firsts[k]  ms == Members(i) IN
       /\ Sets[k].n = recs[i].n /\ Sets[k].t = recs[i].t /\ Sets[k].c = recs[i].c
       /\ Sets[k].d = [q \in 1..Len(ms) |-> recs[ms[q]].d[1]]
       /\ \A q \in 1..Len(ms) : ~U32Less(recs[ms[q]].ttl, Sets[k].ttl)
       /\ \E q \in 1..Len(ms) : recs[ms[q]].ttl = Sets[k].ttl
Asked == Group(recs, Question) = recs
(* folding commutes with grouping up to the spelling and order of the owner, and sorting undoes nothing *)
FoldKeeps == \A k \in 1..Len(Sets) : FoldRrset(FoldRrset(Sets[k])) = FoldRrset(Sets[k]) /\ Len(FoldRrset(Sets[k]).d) = Len(Sets[k].d)
=============================================================================
