---------------------------- MODULE ReplaceLaws ----------------------------
(* Replacing leftmost non-overlapping occurrences. *)
EXTENDS Libmy
CONSTANTS Chars, MaxT, MaxO
VARIABLES t, old, new
Texts(n) == UNION {[1..k -> Chars] : k \in 0..n}
Init == t = <<>> /\ old = <<>> /\ new = <<>>
Next == \/ old = <<>> /\ Len(t) < MaxT /\ (\E c \in Chars : t' = Append(t, c)) /\ UNCHANGED <<old, new>>
        \/ old = <<>> /\ old' \in Texts(MaxO) \ {<<>>} /\ new' \in Texts(MaxO) /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, old, new>>
Count(x, o) == Cardinality({i \in 1..(Len(x) - Len(o) + 1) : SubSeq(x, i, i + Len(o) - 1) = o})
(* scan as a machine: at each position either replace or copy *)
RECURSIVE Scan(_)
Scan(x) == IF x = <<>> THEN <<>>
           ELSE IF Len(x) >= Len(old) /\ SubSeq(x, 1, Len(old)) = old THEN new \o Scan(SubSeq(x, Len(old) + 1, Len(x)))
           ELSE <<x[1]>> \o Scan(Tail(x))
Law == old # <<>> =>
  LET r == Replaced(t, old, new) IN
  /\ r = Scan(t)
  /\ Count(t, old) = 0 => r = t
  /\ old = new => r = t
  /\ (Len(r) - Len(t)) * (IF Len(new) = Len(old) THEN 0 ELSE 1) <= Count(t, old) * MaxOf(0, Len(new) - Len(old))
=============================================================================
