---------------------------- MODULE AddressLaws ----------------------------
(* Address text is exact and canonical; ranges are intervals of addresses.
   One state per address, grown a group (or octet) at a time.               *)
EXTENDS Libmy
CONSTANTS Groups, Octets
VARIABLES w, q, p

Init == w = <<>> /\ q = <<>> /\ p = -1
Next == \/ q = <<>> /\ Len(w) < 8 /\ (\E x \in Groups : w' = Append(w, x)) /\ UNCHANGED <<q, p>>
        \/ w = <<>> /\ p = -1 /\ Len(q) < 4 /\ (\E x \in Octets : q' = Append(q, x)) /\ UNCHANGED <<w, p>>
        \/ w = <<>> /\ Len(q) = 2 /\ p = -1 /\ p' \in 0..16 /\ UNCHANGED <<w, q>>
Spec == Init /\ [][Next]_<<w, q, p>>

Chars6 == {48,49,50,51,52,53,54,55,56,57,97,98,99,100,101,102,58,46}
Zero2 == \E i \in 1..7 : w[i] = 0 /\ w[i + 1] = 0
Six == Len(w) = 8 => LET A6 == TLCEval(Concat([i \in 1..8 |-> U16Bytes(w[i])]))  T6 == TLCEval(Ip6Text(A6)) IN
  /\ ReadIp6(T6) = A6
  /\ Len(T6) <= 45
  /\ \A i \in 1..Len(T6) : T6[i] \in Chars6
  /\ (DoubleColon(T6) # 0) = Zero2
  (* no second "::" and never ":::" *)
  /\ Cardinality({i \in 1..(Len(T6) - 1) : T6[i] = 58 /\ T6[i + 1] = 58}) <= 1
  (* no other choice of run gives shorter text; an embedded quad only for the IPv4 ranges *)
  /\ (\E i \in 1..Len(T6) : T6[i] = DOT) => \A i \in 1..5 : w[i] = 0
  /\ (\A i \in 1..Len(T6) : T6[i] # DOT) => \A r \in ZeroRuns(w) : r[2] >= 2 => r[2] <= BestRun(w)[2]
Four == Len(q) = 4 => LET t == Ip4Text(q) IN ReadIp4(t) = q /\ Len(t) \in 7..15

Num(a) == a[1] * 256 + a[2]
Range2 == (Len(q) = 2 /\ p >= 0) =>
  LET lo == Num(Lowest(q, p))  hi == Num(Highest(q, p))  size == 2^(16 - p) IN
  /\ lo <= Num(q) /\ Num(q) <= hi /\ hi - lo + 1 = size /\ (lo % size) = 0
  /\ Num(NextAddr(q)) = ((Num(q) + 1) % 65536)
  /\ Num(NextAddr(Highest(q, p))) = ((hi + 1) % 65536)
=============================================================================
