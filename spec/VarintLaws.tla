----------------------------- MODULE VarintLaws -----------------------------
(* Variable-length integers: exact, minimal, self-delimiting. *)
EXTENDS Libmy
CONSTANTS Octets
VARIABLES b
Init == b = <<>>
Next == Len(b) < 8 /\ \E x \in Octets : b' = Append(b, x)
Spec == Init /\ [][Next]_b
Exact == Len(b) = 8 => LET c == TLCEval([i \in 1..8 |-> b[i]])  e == TLCEval(Varint(c)) IN
  /\ VarintValue(e) = c
  /\ Len(e) \in 1..10 /\ PackedLen(e, 10) = Len(e)
  /\ \A k \in 1..Len(e) : e[k] \in Byte
  /\ Len(e) > 1 => e[Len(e)] # 0
  /\ \A k \in 0..(Len(e) - 1) : PackedLen(e, k) = 0
=============================================================================
