--------------------------- MODULE VectorMachine ---------------------------
(* A growable array over a block that is reallocated by doubling: it refines a
   sequence.  Unwritten cells hold JUNK; reading one would be a defect.       *)
EXTENDS Bytes
CONSTANTS MaxN, MaxA
VARIABLES blk, n, hint, abs, op
vars == <<blk, n, hint, abs, op>>
JUNK == "junk"
Init == hint \in 1..2 /\ blk = Repeat(JUNK, hint) /\ n = 0 /\ abs = <<>> /\ op = "init"
Resized(b, k) == [i \in 1..k |-> IF i <= Len(b) THEN b[i] ELSE JUNK]
RECURSIVE Reserved(_, _, _)
Reserved(b, m, k) == IF k > Len(b) - m THEN Reserved(Resized(b, 2 * Len(b)), m, k) ELSE b
Store(b, m, xs) == [i \in 1..Len(b) |-> IF i > m /\ i <= m + Len(xs) THEN xs[i - m] ELSE b[i]]
Put(xs) == LET b == Reserved(blk, n, Len(xs)) IN blk' = Store(b, n, xs) /\ n' = n + Len(xs) /\ abs' = abs \o xs /\ UNCHANGED hint
Add == Len(abs) < MaxN /\ op' = "add" /\ \E x \in {1, 2} : Put(<<x>>)
App == \E k \in 0..3 : Len(abs) + k <= MaxN /\ op' = "append" /\ Put(SubSeq(<<3, 1, 2>>, 1, k))
Ext == 2 * Len(abs) <= MaxN /\ op' = "extend" /\ Put(abs)
Res == \E k \in 0..MaxA : op' = "reserve" /\ blk' = Reserved(blk, n, k) /\ UNCHANGED <<n, hint, abs>>
Clip == \E k \in 0..MaxN : op' = "clip" /\ n' = MinOf(n, k) /\ abs' = (IF k < Len(abs) THEN SubSeq(abs, 1, k) ELSE abs) /\ UNCHANGED <<blk, hint>>
Reset == op' = "reset" /\ n' = 0 /\ abs' = <<>> /\ blk' = (IF Len(blk) > hint THEN SubSeq(blk, 1, hint) ELSE blk) /\ UNCHANGED hint
Detach == op' = "detach" /\ n' = 0 /\ abs' = <<>> /\ blk' = Repeat(JUNK, hint) /\ UNCHANGED hint
(* a caller writes into reserved room and advances *)
Adv == \E k \in 1..2 : Len(abs) + k <= MaxN /\ n + k <= Len(blk) /\ op' = "advance" /\ blk' = Store(blk, n, Repeat(2, k)) /\ n' = n + k /\ abs' = abs \o Repeat(2, k) /\ UNCHANGED hint
Next == Add \/ App \/ Ext \/ Res \/ Clip \/ Reset \/ Detach \/ Adv
Spec == Init /\ [][Next]_vars
Room == n <= Len(blk) /\ Len(blk) >= 1
Refines == SubSeq(blk, 1, n) = abs
Reservation == [][op' = "reserve" => Len(blk') >= Len(blk)]_vars
Kept == [][op' \in {"reserve", "add", "append", "advance", "extend"} => SubSeq(abs', 1, Len(abs)) = abs]_vars
=============================================================================
