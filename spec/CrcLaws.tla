------------------------------ MODULE CrcLaws ------------------------------
(* CRC-32C: the table walk is the polynomial division, eight octets at a time
   through sliced tables is the same again, and the published check value.    *)
EXTENDS Libmy
CONSTANTS Octets, MaxD
VARIABLES d
Init == d = <<>>
Next == Len(d) < MaxD /\ \E x \in Octets : d' = Append(d, x)
Spec == Init /\ [][Next]_d
RECURSIVE Zeros(_, _)
Zeros(x, n) == IF n = 0 THEN x ELSE Zeros(CrcByte(x, 0), n - 1)
Slices == TLCEval([k \in 0..7 |-> [c \in Byte |-> Zeros(CrcTable[c], k)]])
XorAll(xs) == FoldLeft(Xor2, <<0, 0>>, xs)
Octet(x, k) == CASE k = 1 -> x[2] % 256 [] k = 2 -> x[2] \div 256 [] k = 3 -> x[1] % 256 [] OTHER -> x[1] \div 256
Sliced(x, b) == XorAll([k \in 1..8 |-> Slices[8 - k][IF k <= 4 THEN b[k] ^^ Octet(x, k) ELSE b[k]]])
Division == Crc32c(d) = CrcByBits(d)
Slicing == LET b == d \o <<7, 0, 200, 255, 1, 90, 128, 3>> x == CrcFrom(<<65535, 65535>>, d) IN
   Sliced(x, SubSeq(b, 1, 8)) = CrcFrom(x, SubSeq(b, 1, 8))
Splits == \A k \in 0..Len(d) : CrcFrom(CrcFrom(<<1, 2>>, SubSeq(d, 1, k)), SubSeq(d, k + 1, Len(d))) = CrcFrom(<<1, 2>>, d)
Detects == \A i \in 1..Len(d) : \A j \in 0..7 : Crc32c([d EXCEPT ![i] = @ ^^ (2^j)]) # Crc32c(d)
RECURSIVE Times(_, _)
Times(b, n) == IF n = 0 THEN <<>> ELSE b \o Times(b, n - 1)
Repeats == Len(d) < 3 => \A n \in {0, 1, 2, 3, 6} : CrcRepeated(d, n, <<9, 200>>) = Crc32c(Times(d, n) \o <<9, 200>>)
ASSUME Crc32c(S("123456789")) = <<58118, 37507>>
ASSUME Crc32c(Repeat(0, 32)) = <<35473, 13994>>
ASSUME Crc32c(Repeat(255, 32)) = <<25256, 43843>>
ASSUME Crc32c([i \in 1..32 |-> i - 1]) = <<18141, 31054>>
=============================================================================
