------------------------------- MODULE Libmy -------------------------------
(* The utility library: what its functions compute, and its containers as
   abstract state machines (bag, sequence, set of loaded files).             *)
EXTENDS Codecs, Bitwise

(* --------------------------- 64-bit quantities --------------------------- *)
(* eight octets, most significant first *)
DivStep(q, by) == FoldLeft(LAMBDA s, o : LET v == s.r * 256 + o IN [q |-> Append(s.q, v \div by), r |-> v % by], [q |-> <<>>, r |-> 0], q)
RECURSIVE DecBytes(_)
DecBytes(b) ==
  LET s == TLCEval(DivStep(b, 10)) IN
  IF \A i \in 1..Len(s.q) : s.q[i] = 0 THEN <<48 + s.r>> ELSE Append(DecBytes(s.q), 48 + s.r)
ValueBit(b, k) == LET i == Len(b) - k \div 8 IN IF i < 1 THEN 0 ELSE (b[i] \div 2^(k % 8)) % 2

(* ---------------------- variable-length integers ------------------------- *)
Group7(b, j) == FoldLeft(LAMBDA v, i : v + ValueBit(b, 7 * j + i) * 2^i, 0, <<0, 1, 2, 3, 4, 5, 6>>)
GroupCount(b) == LET js == {j \in 0..9 : Group7(b, j) # 0} IN IF js = {} THEN 1 ELSE (CHOOSE j \in js : \A i \in js : i <= j) + 1
Varint(b) == LET n == GroupCount(b) IN [k \in 1..n |-> Group7(b, k - 1) + IF k < n THEN 128 ELSE 0]
(* the octets taken by the encoding at the start of b, at most n; 0 when it goes on *)
PackedLen(b, n) == LET ks == {k \in 1..MinOf(n, Len(b)) : b[k] < 128} IN IF ks = {} THEN 0 ELSE CHOOSE k \in ks : \A j \in ks : k <= j
(* the value of an encoding, as eight octets *)
VarintValue(e) ==
  [i \in 1..8 |-> FoldLeft(LAMBDA v, j : LET k == 8 * (8 - i) + j  g == k \div 7 + 1 IN
      v + (IF g > Len(e) THEN 0 ELSE ((e[g] % 128) \div 2^(k % 7)) % 2) * 2^j, 0, <<0, 1, 2, 3, 4, 5, 6, 7>>)]

(* -------------------------- CRC-32C (Castagnoli) ------------------------- *)
Poly == <<33526, 15224>>          \* 0x82F63B78, reflected
Xor2(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2]>>
Shr1(x) == <<x[1] \div 2, (x[1] % 2) * 32768 + x[2] \div 2>>
CrcBit(x) == IF (x[2] % 2) = 1 THEN Xor2(Shr1(x), Poly) ELSE Shr1(x)
RECURSIVE CrcBits(_, _)
CrcBits(x, n) == IF n = 0 THEN x ELSE CrcBits(CrcBit(x), n - 1)
CrcTable == TLCEval([c \in Byte |-> CrcBits(<<0, c>>, 8)])
Shr8(x) == <<x[1] \div 256, (x[1] % 256) * 256 + x[2] \div 256>>
CrcByte(x, c) == Xor2(CrcTable[(x[2] % 256) ^^ c], Shr8(x))
CrcFrom(x, b) == FoldLeft(CrcByte, x, b)
Crc32c(b) == Xor2(CrcFrom(<<65535, 65535>>, b), <<65535, 65535>>)
(* Over a given block the checksum's state changes by an affine map of bits: what it does to zero and to each
   single bit says what it does to every state, so a block met many times over need be walked only 33 times.   *)
UnitBits == TLCEval([k \in 1..32 |-> IF k <= 16 THEN <<0, 2^(k - 1)>> ELSE <<2^(k - 17), 0>>])
StateBit(x, k) == IF k <= 16 THEN (x[2] \div 2^(k - 1)) % 2 ELSE (x[1] \div 2^(k - 17)) % 2
Affine(F(_)) == LET z == TLCEval(F(<<0, 0>>)) IN <<z>> \o TLCEval([k \in 1..32 |-> Xor2(F(UnitBits[k]), z)])
ApplyAffine(m, x) == FoldLeft(LAMBDA v, k : IF StateBit(x, k) = 1 THEN Xor2(v, m[k + 1]) ELSE v, m[1], [k \in 1..32 |-> k])
TwiceAffine(m) == Affine(LAMBDA x : ApplyAffine(m, ApplyAffine(m, x)))
CrcRepeated(b, times, tail) ==      \* square and multiply
  LET m == TLCEval(Affine(LAMBDA x : CrcFrom(x, b)))
      s == FoldLeft(LAMBDA acc, bit :
             LET maps == TLCEval(acc)
                 used == TLCEval(IF ((times \div 2^bit) % 2) = 1 THEN ApplyAffine(maps.m, maps.x) ELSE maps.x)
             IN TLCEval([m |-> TLCEval(TwiceAffine(maps.m)), x |-> used]),
             [m |-> m, x |-> <<65535, 65535>>], [k \in 1..Cardinality({j \in 0..20 : 2^j <= times}) |-> k - 1])
  IN Xor2(CrcFrom(s.x, tail), <<65535, 65535>>)
(* the same by bits, as the polynomial division it is *)
CrcByBits(b) == Xor2(FoldLeft(LAMBDA x, c : CrcBits(<<x[1], x[2] ^^ c>>, 8), <<65535, 65535>>, b), <<65535, 65535>>)

(* --------------------------------- heap ---------------------------------- *)
(* A bag of <<key, id>> with distinct ids.  Pop and replace may take any least. *)
Least(h) == {x \in h : \A y \in h : x[1] <= y[1]}
None == <<-1, -1>>
HeapStep(s, op, x, id, r) ==      \* [h, ok]: the heap after the operation answered r
  CASE op = 0 -> [h |-> s.h \cup {<<x, id>>}, ok |-> s.ok]
    [] op = 1 -> IF s.h = {} THEN [s EXCEPT !.ok = @ /\ r = None] ELSE [h |-> s.h \ {r}, ok |-> s.ok /\ r \in Least(s.h)]
    [] op = 2 -> IF s.h = {} THEN [s EXCEPT !.ok = @ /\ r = None]
                 ELSE [h |-> (s.h \ {r}) \cup {<<x, id>>}, ok |-> s.ok /\ r \in Least(s.h)]
    [] op = 3 -> [s EXCEPT !.ok = @ /\ IF s.h = {} THEN r = None ELSE r \in Least(s.h)]
    [] OTHER -> [s EXCEPT !.ok = @ /\ IF x < Cardinality(s.h) THEN r \in s.h ELSE r = None]
HeapRun(prog, out) ==
  FoldLeft(LAMBDA s, i : HeapStep(s, prog[2 * i - 1], prog[2 * i], i, out[i]), [h |-> {}, ok |-> TRUE], [i \in 1..(Len(prog) \div 2) |-> i])

(* --------------------------- growable buffers ---------------------------- *)
CStr(b) == LET z == {i \in 1..Len(b) : b[i] = 0} IN IF z = {} THEN b ELSE SubSeq(b, 1, (CHOOSE i \in z : \A j \in z : i <= j) - 1)
DropLast(d, c) == IF d # <<>> /\ d[Len(d)] = c THEN SubSeq(d, 1, Len(d) - 1) ELSE d
CTerm(d) == IF d = <<>> \/ d[Len(d)] # 0 THEN Append(d, 0) ELSE d
(* operation o (a letter and its payload) on contents d, in units of w octets: [d, x] *)
SeqStep(d, o, w) ==
  LET k == OneChar(o[1] - 31)
      p == Tail(o)
      n == p[1] * 256 + p[2]
      To(e) == [d |-> e, x |-> <<>>]
  IN
  CASE k = "a" -> To(d \o SubSeq(p, 1, w))
    [] k \in {"A", "v", "e", "p"} -> To(d \o p)
    [] k = "r" -> To(d)
    [] k = "c" -> To(IF n * w < Len(d) THEN SubSeq(d, 1, n * w) ELSE d)
    [] k = "s" -> To(DropLast(d, p[1]))
    [] k = "z" -> To(<<>>)
    [] k = "E" -> To(CStr(p) \o d \o CStr(p))
    [] k = "d" -> [d |-> <<>>, x |-> d]
    [] k \in {"S", "f"} -> To(DropLast(d, 0) \o CStr(p))
    [] k = "t" -> To(CTerm(d))
    [] k = "C" -> [d |-> CTerm(d), x |-> CStr(d)]
    [] k = "F" -> To(DropLast(d, 0) \o Dec(n) \o S("-") \o CStr(SubSeq(p, 3, Len(p))) \o S("."))
    [] k = "i" -> To(<<>>)
    [] k = "g" -> [d |-> d, x |-> IF n * w < Len(d) THEN SubSeq(d, n * w + 1, n * w + w) ELSE <<>>]
RECURSIVE SeqRun(_, _, _, _)
SeqRun(d, ops, i, w) ==
  IF i > Len(ops) THEN <<>>
  ELSE LET s == TLCEval(SeqStep(d, ops[i], w)) IN
       <<[n |-> Len(s.d) \div w, d |-> s.d, p |-> 1, x |-> s.x]>> \o SeqRun(s.d, ops, i + 1, w)

(* ------------------------------- file sets ------------------------------- *)
(* set: the set file's contents, if it exists; rev: counts its changes; seen:
   the revision last acted on; files: existing members; live: name -> handle;
   cb: 0 with both callbacks, 1 without loading, 2 without unloading, 3 without both *)
FsInit == [set |-> <<<<>>>>, rev |-> 1, seen |-> 0, files |-> {}, live |-> <<>>, cb |-> 0, ok |-> TRUE]
Loads(s) == s.cb \in {0, 2}
Unloads(s) == s.cb \in {0, 1}
Listed(s) == {l \in Range(Split(s.set[1], NL)) : l # <<>>}
Wanted(s) == Listed(s) \cap s.files
EntryLess(x, y) == LexLess(x[1], y[1])
FsSame(s, r) == [s EXCEPT !.ok = @ /\ r.load = <<>> /\ r.unload = <<>> /\ r.get = SetToSortSeq({<<f, s.live[f]>> : f \in DOMAIN s.live}, EntryLess)]
FsReload(s, r) ==
  IF s.set = <<>> \/ s.rev = s.seen THEN FsSame(s, r)
  ELSE
    LET w == Wanted(s)
        old == DOMAIN s.live
        new == w \ old
        live == [f \in w |-> IF f \in old THEN s.live[f] ELSE IF ~Loads(s) THEN 0 ELSE
                   LET ks == {k \in 1..Len(r.load) : r.load[k][1] = f} IN IF ks = {} THEN -1 ELSE r.load[CHOOSE k \in ks : TRUE][2]]
    IN [s EXCEPT !.seen = s.rev, !.live = live,
          !.ok = @ /\ (IF Loads(s) THEN Len(r.load) = Cardinality(new) /\ {r.load[k][1] : k \in 1..Len(r.load)} = new ELSE r.load = <<>>)
                   /\ (IF Unloads(s) THEN Len(r.unload) = Cardinality(old \ w) /\ Range(r.unload) = {<<f, s.live[f]>> : f \in old \ w} ELSE r.unload = <<>>)
                   /\ r.get = SetToSortSeq({<<f, live[f]>> : f \in w}, EntryLess)]
FsStep(s, o, r) ==
  LET k == OneChar(o[1] - 31)  p == Tail(o) IN
  CASE k \in {"w", "W", "n", "N"} -> [s EXCEPT !.set = <<p>>, !.rev = @ + 1]
    [] k = "x" -> [s EXCEPT !.set = <<>>]
    [] k = "+" -> [s EXCEPT !.files = @ \cup {p}]
    [] k = "-" -> [s EXCEPT !.files = @ \ {p}]
    [] k = "c" -> [s EXCEPT !.cb = p[1] - 48]
    [] k = "R" -> FsReload(s, r)
    [] k = "F" -> FsSame(s, r)          \* the set file cannot be opened: nothing changes, and the next reload still sees it
RECURSIVE FsRun(_, _, _, _, _)
FsRun(s, ops, i, out, j) ==
  IF i > Len(ops) THEN [s EXCEPT !.ok = @ /\ j > Len(out)]
  ELSE IF ops[i][1] \in {82, 70} THEN (IF j > Len(out) THEN [s EXCEPT !.ok = FALSE] ELSE FsRun(TLCEval(FsStep(s, ops[i], out[j])), ops, i + 1, out, j + 1))
  ELSE FsRun(TLCEval(FsStep(s, ops[i], <<>>)), ops, i + 1, out, j)

(* ---------------------------- address ranges ----------------------------- *)
MaskBit(p, k) == IF k < p THEN 1 ELSE 0
ByteMask(p, i) == FoldLeft(LAMBDA v, j : v * 2 + MaskBit(p, 8 * (i - 1) + j), 0, <<0, 1, 2, 3, 4, 5, 6, 7>>)
Lowest(a, p) == [i \in 1..Len(a) |-> a[i] & ByteMask(p, i)]
Highest(a, p) == [i \in 1..Len(a) |-> (a[i] & ByteMask(p, i)) + 255 - ByteMask(p, i)]
RECURSIVE NextAddr(_)
NextAddr(a) == IF a = <<>> THEN <<>> ELSE IF a[Len(a)] = 255 THEN Append(NextAddr(SubSeq(a, 1, Len(a) - 1)), 0)
               ELSE Append(SubSeq(a, 1, Len(a) - 1), a[Len(a)] + 1)

(* -------------------------- string replacement --------------------------- *)
RECURSIVE Replaced(_, _, _)
Replaced(t, old, new) ==
  LET ps == {i \in 1..(Len(t) - Len(old) + 1) : SubSeq(t, i, i + Len(old) - 1) = old} IN
  IF ps = {} THEN t
  ELSE LET i == CHOOSE i \in ps : \A j \in ps : i <= j IN
       SubSeq(t, 1, i - 1) \o new \o Replaced(SubSeq(t, i + Len(old), Len(t)), old, new)
=============================================================================
