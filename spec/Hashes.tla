------------------------------- MODULE Hashes -------------------------------
(* The published lookup3 hash over octets; 32-bit words are pairs of halves. *)
EXTENDS Bytes, Bitwise

Add32(x, y) == LET l == x[2] + y[2] IN <<(x[1] + y[1] + l \div 65536) % 65536, l % 65536>>
Sub32(x, y) == LET b == IF x[2] < y[2] THEN 1 ELSE 0 IN <<(x[1] - y[1] - b + 131072) % 65536, (x[2] - y[2] + 65536) % 65536>>
Xor32(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2]>>
Rot32(x, k) ==
  IF k >= 16 THEN LET j == k - 16  p == 2^j  q == 2^(16 - j) IN <<((x[2] * p) % 65536) + (x[1] \div q), ((x[1] * p) % 65536) + (x[2] \div q)>>
  ELSE LET p == 2^k  q == 2^(16 - k) IN <<((x[1] * p) % 65536) + (x[2] \div q), ((x[2] * p) % 65536) + (x[1] \div q)>>

(* state <<a, b, c>>; a step subtracts, xors with a rotation and adds *)
Turn(s, i, j, k, r) ==       \* s[i] -= s[j];  s[i] ^= rot(s[j], r);  s[j] += s[k]
  LET x == Xor32(Sub32(s[i], s[j]), Rot32(s[j], r)) IN [s EXCEPT ![i] = x, ![j] = Add32(@, s[k])]
Mix(s) == Turn(Turn(Turn(Turn(Turn(Turn(s, 1, 3, 2, 4), 2, 1, 3, 6), 3, 2, 1, 8), 1, 3, 2, 16), 2, 1, 3, 19), 3, 2, 1, 4)
UnTurn(s, i, j, k, r) == LET y == Sub32(s[j], s[k])  t == [s EXCEPT ![j] = y] IN [t EXCEPT ![i] = Add32(Xor32(@, Rot32(y, r)), y)]
UnMix(s) == UnTurn(UnTurn(UnTurn(UnTurn(UnTurn(UnTurn(s, 3, 2, 1, 4), 2, 1, 3, 19), 1, 3, 2, 16), 3, 2, 1, 8), 2, 1, 3, 6), 1, 3, 2, 4)
Stir(s, i, j, r) == [s EXCEPT ![i] = Sub32(Xor32(@, s[j]), Rot32(s[j], r))]
Final(s) == Stir(Stir(Stir(Stir(Stir(Stir(Stir(s, 3, 2, 14), 1, 3, 11), 2, 1, 25), 3, 2, 16), 1, 3, 4), 2, 1, 14), 3, 2, 24)

Oct(key, i) == IF i <= Len(key) THEN key[i] ELSE 0
Word(order, key, i) ==
  LET a == Oct(key, i)  b == Oct(key, i + 1)  c == Oct(key, i + 2)  d == Oct(key, i + 3) IN
  IF order = "LE" THEN <<d * 256 + c, b * 256 + a>> ELSE <<a * 256 + b, c * 256 + d>>
Feed(s, key, i, W) == <<Add32(s[1], Word(W, key, i)), Add32(s[2], Word(W, key, i + 4)), Add32(s[3], Word(W, key, i + 8))>>
RECURSIVE HashFrom(_, _, _, _)
HashFrom(s, key, i, W) ==
  IF Len(key) - i + 1 > 12 THEN HashFrom(TLCEval(Mix(TLCEval(Feed(s, key, i, W)))), key, i + 12, W)
  ELSE IF key = <<>> THEN s ELSE Final(TLCEval(Feed(s, key, i, W)))
Start(key, s1, s2) == LET x == Add32(Add32(<<57005, 48879>>, <<Len(key) \div 65536, Len(key) % 65536>>), s1) IN <<x, x, Add32(x, s2)>>
Lookup3(key, s1, s2, W) == LET s == TLCEval(HashFrom(Start(key, s1, s2), key, 1, W)) IN <<s[3], s[2]>>
Zero32 == <<0, 0>>

MatchHash(a, r) ==
  LET s1 == U32(a[2], 0)  s2 == U32(a[3], 0)
      one == TLCEval(Lookup3(a[1], s1, Zero32, "LE"))
      two == TLCEval(Lookup3(a[1], s1, s2, "LE"))
      w == [little |-> one[1], big |-> Lookup3(a[1], s1, Zero32, "BE")[1], c2 |-> two[1], b2 |-> two[2], same |-> 1]
  IN IF (Len(a[1]) % 4) = 0 THEN r = w @@ [word |-> one[1], wc2 |-> two[1], wb2 |-> two[2]] ELSE r = w
=============================================================================
