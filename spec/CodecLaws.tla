----------------------------- MODULE CodecLaws -----------------------------
(* Every codec inverts its encoder, and accepts nothing an encoder could not
   have produced twice.                                                      *)
EXTENDS Codecs
CONSTANTS Octets, Chars, MaxD, MaxT
VARIABLES d, t
Init == d = <<>> /\ t = <<>>
Next == \/ t = <<>> /\ Len(d) < MaxD /\ (\E x \in Octets : d' = Append(d, x)) /\ UNCHANGED t
        \/ d = <<>> /\ Len(t) < MaxT /\ (\E x \in Chars : t' = Append(t, x)) /\ UNCHANGED d
Spec == Init /\ [][Next]_<<d, t>>
UnHex(h) == [i \in 1..(Len(h) \div 2) |-> HexVal(h[2 * i - 1]) * 16 + HexVal(h[2 * i])]
Inverts ==
  /\ UnB64(B64(d)) = d /\ GoodB64(B64(d)) /\ Len(B64(d)) = 4 * ((Len(d) + 2) \div 3)
  /\ UnB32(B32(d)) = d /\ GoodB32(B32(d)) /\ GoodB32(Lower(B32(d))) /\ UnB32(Lower(B32(d))) = d
  /\ UnHex(HexLower(d)) = d /\ UnHex(HexUpper(d)) = d
(* accepted text is the encoding of what it denotes *)
Canonical ==
  /\ GoodB64(t) => B64(UnB64(t)) = t
  /\ GoodB32(t) => Lower(B32(UnB32(t))) = Lower(t)
  /\ GoodB32(t) => (Len(t) % 8) \in {0, 2, 4, 5, 7}
=============================================================================
