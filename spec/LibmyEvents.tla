---------------------------- MODULE LibmyEvents ----------------------------
(* What each utility function may do, as events. *)
EXTENDS Libmy

AddrText(a) == IF Len(a) = 4 THEN Ip4Text(a) ELSE Ip6Text(a)
Room(af) == IF af = 4 THEN 16 ELSE 46          \* what any address fits
NoText == [text |-> <<>>, direct |-> <<>>, back |-> <<>>]
MatchNtop(a, r) ==
  IF a[1] \notin {4, 6} THEN r = NoText
  ELSE LET t == TLCEval(AddrText(a[2]))
           yes == [text |-> <<t>>, direct |-> <<t>>, back |-> <<a[2]>>]
       IN IF a[3] < Len(t) + 1 THEN r = NoText ELSE IF a[3] >= Room(a[1]) THEN r = yes ELSE r \in {NoText, yes}

MatchHexE(a, r) ==      \* as many whole octets as fit before the terminator
  LET n == MinOf(Len(a[1]), (a[3] - 1) \div 2)
      d == SubSeq(a[1], 1, n)
  IN r = [n |-> 2 * n, text |-> IF a[2] = 1 THEN HexUpper(d) ELSE HexLower(d)]
MatchDec(a, r) ==
  LET t == TLCEval(DecBytes(a[1])) IN
  Len(t) < a[2] => r = [n |-> Len(t), text |-> t, ends |-> 1]
MatchB32D(a, r) ==
  LET t == a[1] IN
  IF \A i \in 1..Len(t) : IsB32(t[i]) THEN
    GoodB32(t) => LET d == UnB32(t) IN r.out = <<SubSeq(d, 1, MinOf(Len(d), a[2]))>>
  ELSE (a[2] > Len(t) /\ \E i \in 1..Len(t) : ~IsB32(t[i]) /\ t[i] # 61) => r.out = <<>>
MatchHexD(a, r) ==
  LET t == CStr(a[1]) IN
  r.out = IF t # <<>> /\ (Len(t) % 2) = 0 /\ \A i \in 1..Len(t) : IsHexDigit(t[i])
          THEN <<[i \in 1..(Len(t) \div 2) |-> HexVal(t[2 * i - 1]) * 16 + HexVal(t[2 * i])]>> ELSE <<>>
MatchVarint(a, r) ==
  LET e == TLCEval(Varint(a[1]))  n == Len(e)
      w == [len |-> n, e64 |-> e, over |-> 0, d64n |-> n, d64 |-> a[1], pk |-> n, cut |-> 0]
  IN IF SubSeq(a[1], 1, 4) = <<0, 0, 0, 0>> THEN r = w @@ [e32 |-> e, over32 |-> 0, d32n |-> n, d32 |-> a[1]] ELSE r = w
MatchPacked(a, r) ==
  /\ r.n = PackedLen(a[1], a[2])
  /\ Len(a[1]) >= 10 => r.d64n = PackedLen(a[1], 10)
MatchHeap(a, r) ==
  LET s == HeapRun(a[1], r.out) IN
  /\ s.ok /\ r.size = Cardinality(s.h) /\ r.beyond = 0 /\ r.empty = 1 /\ r.gone = 1
  /\ Len(r.left) = Cardinality(s.h) /\ Range(r.left) = s.h
  /\ Len(r.drain) = Cardinality(s.h) /\ Range(r.drain) = s.h
  /\ \A i \in 1..(Len(r.drain) - 1) : r.drain[i][1] <= r.drain[i + 1][1]
MatchFileset(a, r) ==
  LET s == FsRun(FsInit, a, 1, r.out, 1) IN
  /\ s.ok /\ r.user = 1 /\ r.gone = 1 /\ r.load = <<>>
  /\ IF Unloads(s) THEN Len(r.unload) = Cardinality(DOMAIN s.live) /\ Range(r.unload) = {<<f, s.live[f]>> : f \in DOMAIN s.live}
     ELSE r.unload = <<>>

LibmyMatch(e) ==
  LET a == e.a
      r == e.r
  IN
  CASE e.op = "ntop" -> MatchNtop(a, r)
    [] e.op = "iparith" -> r = [lo |-> Lowest(a[1], a[2]), hi |-> Highest(a[1], a[2]), next |-> NextAddr(a[1])]
    [] e.op = "b64e" -> r.text = B64(a[1])
    [] e.op = "b64d" -> GoodB64(a[1]) => r.out = UnB64(a[1])
    [] e.op = "b64v" -> /\ IF IsB64(a[1]) THEN r.v = B64Val[a[1]] ELSE r.v < 0
                        /\ r.c = IF (a[1] % 128) < 64 THEN B64Chars[(a[1] % 128) + 1] ELSE 61
    [] e.op = "b32e" -> LET t == B32(a[1]) IN r.text = SubSeq(t, 1, MinOf(Len(t), a[2]))
    [] e.op = "b32d" -> MatchB32D(a, r)
    [] e.op = "hexe" -> MatchHexE(a, r)
    [] e.op = "hex16" -> r = [n |-> 4, text |-> IF a[2] = 1 THEN HexUpper(U16Bytes(a[1])) ELSE HexLower(U16Bytes(a[1]))]
    [] e.op = "dec" -> MatchDec(a, r)
    [] e.op = "hexd" -> MatchHexD(a, r)
    [] e.op = "varint" -> MatchVarint(a, r)
    [] e.op = "packed" -> MatchPacked(a, r)
    [] e.op = "crcrep" -> LET c == CrcRepeated(a[1], a[2], a[3]) IN r = [any |-> c, table |-> c, hw |-> c]
    [] e.op = "crcfirst" -> r = [any |-> Crc32c(a[1])]                 \* asked for before the constructors ran
    [] e.op = "crc" -> LET c == Crc32c(a[1]) IN r = [any |-> c, table |-> c, hw |-> c]
    [] e.op = "heap" -> MatchHeap(a, r)
    [] e.op = "ubuf" -> r = [st |-> SeqRun(<<>>, Tail(a), 1, 1), gone |-> 1]
    [] e.op = "vec5" -> r = [st |-> SeqRun(<<>>, Tail(a), 1, 5), gone |-> 1]
    [] e.op = "replace" -> r.text = Replaced(a[1], a[2], a[3])
    [] e.op = "fileset" -> MatchFileset(a, r)
=============================================================================
