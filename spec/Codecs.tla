------------------------------- MODULE Codecs -------------------------------
(* Binary-to-text codecs and address text. *)
EXTENDS Bytes

(* hexadecimal *)
HexLower(b) == [i \in 1..(2 * Len(b)) |-> LET c == b[(i + 1) \div 2] IN IF (i % 2) = 1 THEN HexL[c \div 16 + 1] ELSE HexL[(c % 16) + 1]]
HexUpper(b) == [i \in 1..(2 * Len(b)) |-> LET c == b[(i + 1) \div 2] IN IF (i % 2) = 1 THEN HexU[c \div 16 + 1] ELSE HexU[(c % 16) + 1]]

(* base64, RFC 4648 section 4 *)
B64Chars == S("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")
B64Val == TLCEval([c \in {B64Chars[i] : i \in 1..64} |-> (CHOOSE i \in 1..64 : B64Chars[i] = c) - 1])
IsB64(c) == c \in DOMAIN B64Val
OrZero(b, i) == IF i <= Len(b) THEN b[i] ELSE 0
B64(b) ==
  LET n == (Len(b) + 2) \div 3 IN
  [k \in 1..(4 * n) |->
     LET g == (k - 1) \div 4
         x == OrZero(b, 3 * g + 1)  y == OrZero(b, 3 * g + 2)  z == OrZero(b, 3 * g + 3)
         have == Len(b) - 3 * g
     IN CASE (k % 4) = 1 -> B64Chars[x \div 4 + 1]
          [] (k % 4) = 2 -> B64Chars[((x % 4) * 16 + y \div 16) + 1]
          [] (k % 4) = 3 -> IF have < 2 THEN 61 ELSE B64Chars[((y % 16) * 4 + z \div 64) + 1]
          [] OTHER -> IF have < 3 THEN 61 ELSE B64Chars[(z % 64) + 1]]
(* the octets whole sextets denote: bits short of an octet are dropped *)
B64OfVals(v) ==
  [k \in 1..((Len(v) * 3) \div 4) |->
     LET g == (k - 1) \div 3  p == (k - 1) % 3 IN
     CASE p = 0 -> v[4 * g + 1] * 4 + v[4 * g + 2] \div 16
       [] p = 1 -> (v[4 * g + 2] % 16) * 16 + v[4 * g + 3] \div 4
       [] OTHER -> (v[4 * g + 3] % 4) * 64 + v[4 * g + 4]]
UnB64(t) == LET cs == SelectSeq(t, LAMBDA c : IsB64(c)) IN B64OfVals(TLCEval([i \in 1..Len(cs) |-> B64Val[cs[i]]]))
(* standard text: whole groups, correctly padded *)
GoodB64(t) == /\ (Len(t) % 4) = 0
              /\ \A i \in 1..Len(t) : IsB64(t[i]) \/ (t[i] = 61 /\ (i = Len(t) \/ (i = Len(t) - 1 /\ t[Len(t)] = 61)))
              /\ B64(TLCEval(UnB64(t))) = t

(* base32 with the extended hex alphabet, unpadded *)
B32Chars == S("0123456789ABCDEFGHIJKLMNOPQRSTUV")
B32Val == TLCEval([c \in {B32Chars[i] : i \in 1..32} \cup {B32Chars[i] + 32 : i \in 11..32} |->
             (CHOOSE i \in 1..32 : B32Chars[i] = c \/ (i > 10 /\ B32Chars[i] + 32 = c)) - 1])
IsB32(c) == c \in DOMAIN B32Val
BitOf(b, k) == LET i == k \div 8 + 1 IN IF i > Len(b) THEN 0 ELSE (b[i] \div (2^(7 - (k % 8)))) % 2
B32(b) == [k \in 1..((Len(b) * 8 + 4) \div 5) |->
   LET o == 5 * (k - 1) IN
   B32Chars[BitOf(b, o) * 16 + BitOf(b, o + 1) * 8 + BitOf(b, o + 2) * 4 + BitOf(b, o + 3) * 2 + BitOf(b, o + 4) + 1]]
ValBit(v, k) == (v[k \div 5 + 1] \div (2^(4 - (k % 5)))) % 2
UnB32(t) == LET v == TLCEval([i \in 1..Len(t) |-> B32Val[t[i]]]) IN
  [k \in 1..((Len(v) * 5) \div 8) |->
     LET o == 8 * (k - 1) IN
     ValBit(v, o) * 128 + ValBit(v, o + 1) * 64 + ValBit(v, o + 2) * 32 + ValBit(v, o + 3) * 16
     + ValBit(v, o + 4) * 8 + ValBit(v, o + 5) * 4 + ValBit(v, o + 6) * 2 + ValBit(v, o + 7)]
(* a length an encoder can produce, leftover bits zero, any letter case *)
GoodB32(t) == /\ \A i \in 1..Len(t) : IsB32(t[i])
              /\ LET e == TLCEval(B32(TLCEval(UnB32(t)))) IN
                 Len(e) = Len(t) /\ \A i \in 1..Len(t) : B32Val[e[i]] = B32Val[t[i]]

(* ------------------------------ addresses -------------------------------- *)
Ip4Text(a) == Dec(a[1]) \o <<DOT>> \o Dec(a[2]) \o <<DOT>> \o Dec(a[3]) \o <<DOT>> \o Dec(a[4])

HexNum(w) ==
  IF w >= 4096 THEN <<HexL[w \div 4096 + 1], HexL[((w \div 256) % 16) + 1], HexL[((w \div 16) % 16) + 1], HexL[(w % 16) + 1]>>
  ELSE IF w >= 256 THEN <<HexL[w \div 256 + 1], HexL[((w \div 16) % 16) + 1], HexL[(w % 16) + 1]>>
  ELSE IF w >= 16 THEN <<HexL[w \div 16 + 1], HexL[(w % 16) + 1]>>
  ELSE <<HexL[w + 1]>>

COLON == 58
Ip6Words(a) == [i \in 1..8 |-> a[2 * i - 1] * 256 + a[2 * i]]
(* maximal runs of zero words, as <<first, length>> *)
ZeroRuns(w) == {r \in (1..8) \X (1..8) :
   /\ r[1] + r[2] <= 9
   /\ \A i \in r[1]..(r[1] + r[2] - 1) : w[i] = 0
   /\ (r[1] = 1 \/ w[r[1] - 1] # 0)
   /\ (r[1] + r[2] = 9 \/ w[r[1] + r[2]] # 0)}
BestRun(w) == LET rs == {r \in ZeroRuns(w) : r[2] >= 2} IN
  IF rs = {} THEN <<0, 0>>
  ELSE CHOOSE r \in rs : \A q \in rs : q[2] < r[2] \/ (q[2] = r[2] /\ q[1] >= r[1])
HexGroups(w, i, j) == IF i > j THEN <<>> ELSE Join([k \in 1..(j - i + 1) |-> HexNum(w[i + k - 1])], <<COLON>>)
Ip6Text(a) ==
  LET w == Ip6Words(a)
      r == BestRun(w)
      last == r[1] + r[2] - 1
      emb == r[1] = 1 /\ (r[2] = 6 \/ (r[2] = 5 /\ w[6] = 65535))
  IN IF r[2] = 0 THEN HexGroups(w, 1, 8)
     ELSE IF emb THEN S("::") \o (IF r[2] = 5 THEN S("ffff:") ELSE <<>>) \o Ip4Text(SubSeq(a, 13, 16))
     ELSE HexGroups(w, 1, r[1] - 1) \o S("::") \o HexGroups(w, last + 1, 8)

(* ---- reading addresses ---- *)
(* fields of t between separators c *)
Split(t, c) ==
  LET ps == TLCEval(<<0>> \o SelectSeq([i \in 1..Len(t) |-> i], LAMBDA i : t[i] = c) \o <<Len(t) + 1>>)
  IN [k \in 1..(Len(ps) - 1) |-> SubSeq(t, ps[k] + 1, ps[k + 1] - 1)]

NoAddr == <<>>
AllDig(f) == f # <<>> /\ \A i \in 1..Len(f) : IsDigit(f[i])
ReadIp4(t) ==
  LET fs == Split(t, DOT) IN
  IF Len(fs) = 4 /\ (\A k \in 1..4 : AllDig(fs[k]) /\ Len(fs[k]) <= 3 /\ (Len(fs[k]) = 1 \/ fs[k][1] # 48) /\ DecValue(fs[k]) <= 255)
  THEN [k \in 1..4 |-> DecValue(fs[k])]
  ELSE NoAddr
HexValue(ds) == FoldLeft(LAMBDA v, d : v * 16 + HexVal(d), 0, ds)
GoodGroup(f) == Len(f) \in 1..4 /\ \A i \in 1..Len(f) : IsHexDigit(f[i])
(* groups to octets; the last may be a dotted quad when tail4 *)
GroupBytes(fs, tail4) ==
  IF \E k \in 1..Len(fs) : ~GoodGroup(fs[k]) /\ ~(tail4 /\ k = Len(fs) /\ ReadIp4(fs[k]) # NoAddr) THEN <<-1>>
  ELSE ConcatMap(LAMBDA f : IF GoodGroup(f) THEN U16Bytes(HexValue(f)) ELSE ReadIp4(f), fs)
(* where "::" starts, 0 if nowhere *)
DoubleColon(t) == LET ps == {i \in 1..(Len(t) - 1) : t[i] = COLON /\ t[i + 1] = COLON} IN
  IF ps = {} THEN 0 ELSE CHOOSE p \in ps : \A q \in ps : p <= q
ReadIp6(t) ==
  LET d == DoubleColon(t) IN
  IF t = <<>> THEN NoAddr
  ELSE IF d = 0 THEN LET b == GroupBytes(Split(t, COLON), TRUE) IN IF Len(b) = 16 THEN b ELSE NoAddr
  ELSE LET l == SubSeq(t, 1, d - 1)
           r == SubSeq(t, d + 2, Len(t))
           lb == IF l = <<>> THEN <<>> ELSE GroupBytes(Split(l, COLON), FALSE)
           rb == IF r = <<>> THEN <<>> ELSE GroupBytes(Split(r, COLON), TRUE)
       IN IF lb = <<-1>> \/ rb = <<-1>> \/ Len(lb) + Len(rb) > 14 THEN NoAddr
          ELSE lb \o Repeat(0, 16 - Len(lb) - Len(rb)) \o rb
=============================================================================
