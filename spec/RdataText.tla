----------------------------- MODULE RdataText -----------------------------
(* Reading record data from its presentation text.  A reading is one of
     yes(out)   the text is well formed and denotes out: exactly that is due
     maybe(out) a reader may refuse it, but must not read anything else
     no         malformed: must be refused
     any        nothing is promised (beyond the result being valid data)     *)
EXTENDS Rdata

RYes(next, out) == [k |-> "yes", next |-> next, out |-> out]
RMaybe(next, out) == [k |-> "maybe", next |-> next, out |-> out]
RNo == [k |-> "no", next |-> 0, out |-> <<>>]
RAny == [k |-> "any", next |-> 0, out |-> <<>>]
RIf(sure, next, out) == IF sure THEN RYes(next, out) ELSE RMaybe(next, out)

Blank(c) == c = 32 \/ c = 9 \/ c = 10 \/ c = 13
RECURSIVE SkipBlanks(_, _)
SkipBlanks(t, p) == IF p < Len(t) /\ Blank(At(t, p)) THEN SkipBlanks(t, p + 1) ELSE p
FirstFrom(t, p, Test(_)) ==      \* the first position from p on whose character passes, or the end
  LET ps == {i \in p..(Len(t) - 1) : Test(t[i + 1])} IN IF ps = {} THEN Len(t) ELSE CHOOSE i \in ps : \A j \in ps : i <= j
TokEnd(t, p) == FirstFrom(t, p, Blank)
OnlyBlanks(t, p) == SkipBlanks(t, p) = Len(t)
RECURSIVE Words(_, _)
Words(t, p) == LET q == SkipBlanks(t, p)  e == TokEnd(t, q) IN
  IF q = Len(t) THEN <<>> ELSE <<Slice(t, q, e - q)>> \o Words(t, e)

(* ----------------------------- character strings ------------------------- *)
(* scanning a possibly quoted string at p: [ok, next, out]; odd: an unescaped quote inside, or one closing right before text *)
ScanBad == [ok |-> FALSE, next |-> 0, out |-> <<>>, odd |-> FALSE]
RECURSIVE ScanStr(_, _, _, _, _)
ScanStr(t, p, quoted, out, odd) ==
  IF p = Len(t) THEN (IF quoted THEN ScanBad ELSE [ok |-> TRUE, next |-> p, out |-> out, odd |-> odd])
  ELSE LET c == At(t, p) IN
    IF quoted /\ c = DQ THEN [ok |-> TRUE, next |-> p + 1, out |-> out, odd |-> p + 1 < Len(t) /\ ~Blank(At(t, p + 1))]
    ELSE IF ~quoted /\ Blank(c) THEN [ok |-> TRUE, next |-> p, out |-> out, odd |-> odd]
    ELSE IF c = BSL THEN
      IF p + 1 >= Len(t) THEN ScanBad
      ELSE LET d == At(t, p + 1) IN
        IF d = DQ \/ d = BSL THEN ScanStr(t, p + 2, quoted, Append(out, d), odd)
        ELSE IF p + 4 <= Len(t) /\ IsDigit(d) /\ IsDigit(At(t, p + 2)) /\ IsDigit(At(t, p + 3)) /\ DecValue(Slice(t, p + 1, 3)) <= 255
             THEN ScanStr(t, p + 4, quoted, Append(out, DecValue(Slice(t, p + 1, 3))), odd)
        ELSE ScanBad
    ELSE IF ~IsPrint(c) THEN ScanBad
    ELSE ScanStr(t, p + 1, quoted, Append(out, c), odd \/ c = DQ)
(* long stretches that stand for themselves are taken at once *)
PlainRun(t, p, quoted) == FirstFrom(t, p, LAMBDA c : c = BSL \/ c = DQ \/ ~IsPrint(c) \/ (~quoted /\ c = SP))
Scan(t, p) == LET quoted == At(t, p) = DQ
                  b == IF quoted THEN p + 1 ELSE p
                  e == PlainRun(t, b, quoted)
              IN ScanStr(t, e, quoted, Slice(t, b, e - b), FALSE)

StringField(t, p) ==
  LET s == Scan(t, p) IN
  IF ~s.ok \/ Len(s.out) > 255 THEN RNo ELSE RIf(~s.odd, s.next, <<Len(s.out)>> \o s.out)
RECURSIVE StringFields(_, _, _, _)
StringFields(t, p, out, sure) ==
  LET q == SkipBlanks(t, p) IN
  IF q = Len(t) THEN RIf(sure, q, out)
  ELSE LET r == StringField(t, q) IN
       IF r.k = "no" THEN r ELSE StringFields(t, r.next, out \o r.out, sure /\ r.k = "yes")

(* ------------------------------- numbers, hex ----------------------------- *)
Number(t, p, max) ==         \* max: 255 or 65535
  LET e == TokEnd(t, p)  w == Slice(t, p, e - p) IN
  IF ~AllDigits(w) \/ DecValue(StripZeros(w)) > max THEN RNo
  ELSE LET v == DecValue(StripZeros(w)) IN RYes(e, IF max = 255 THEN <<v>> ELSE U16Bytes(v))
Number32(t, p) ==
  LET e == TokEnd(t, p)  w == Slice(t, p, e - p) IN
  IF ~AllDigits(w) THEN RNo
  ELSE LET v == DecValue32(StripZeros(w)) IN IF v[1] = -1 THEN RNo ELSE RYes(e, U32Bytes(v))
AllHex(w) == \A i \in 1..Len(w) : IsHexDigit(w[i])
UnHex(w) == [i \in 1..(Len(w) \div 2) |-> HexVal(w[2 * i - 1]) * 16 + HexVal(w[2 * i])]
HexPairs(w) == (Len(w) % 2) = 0 /\ AllHex(w)
(* hex to the end of the text; blanks among the digits need not be taken *)
HexRest(t, p) ==
  LET w == From(t, p)  h == SelectSeq(w, LAMBDA c : ~Blank(c)) IN
  IF ~HexPairs(h) THEN RNo ELSE RIf(Len(h) = Len(w), Len(t), UnHex(h))
Base64Rest(w) ==             \* of a whole word or remainder: [k, out]
  LET h == SelectSeq(w, LAMBDA c : ~Blank(c))
      eq == {i \in 1..Len(h) : h[i] = 61}
      body == IF eq = {} THEN h ELSE SubSeq(h, 1, (CHOOSE i \in eq : \A j \in eq : i <= j) - 1)
      tail == SubSeq(h, Len(body) + 1, Len(h))
      v == TLCEval(UnB64(body))
      enc == TLCEval(B64(v))
  IN IF (\E i \in 1..Len(body) : ~IsB64(body[i])) \/ (\E i \in 1..Len(tail) : tail[i] # 61) \/ Len(tail) > 2 THEN RAny
     ELSE IF Len(enc) >= Len(body) /\ SubSeq(enc, 1, Len(body)) = body /\ Len(enc) - Len(body) <= 2
             /\ \A i \in (Len(body) + 1)..Len(enc) : enc[i] = 61 THEN RYes(0, v)
     ELSE RAny

(* --------------------------------- addresses ------------------------------ *)
Address4(t, p) == LET e == TokEnd(t, p)  a == ReadIp4(Slice(t, p, e - p)) IN IF a = NoAddr THEN RNo ELSE RYes(e, a)
Address6(t, p) == LET e == TokEnd(t, p)  a == ReadIp6(Slice(t, p, e - p)) IN IF a = NoAddr THEN RNo ELSE RYes(e, a)
Eui(t, p, n) ==
  LET w == From(t, p)  e == TokEnd(t, p)
      Good(x) == Len(x) = 3 * n - 1 /\ \A i \in 1..Len(x) : IF (i % 3) = 0 THEN x[i] = 45 ELSE IsHexDigit(x[i])
      Val(x) == [i \in 1..n |-> HexVal(x[3 * i - 2]) * 16 + HexVal(x[3 * i - 1])]
  IN IF Good(w) THEN RYes(Len(t), Val(w))
     ELSE IF Good(Slice(t, p, e - p)) /\ OnlyBlanks(t, e) THEN RMaybe(Len(t), Val(Slice(t, p, e - p)))
     ELSE RNo
(* a prefix length, the address unless the length is 128, and (unless it is 0) a name follows *)
Prefix(t, p) ==
  LET e == TokEnd(t, p)  w == Slice(t, p, e - p)  q == SkipBlanks(t, e) IN
  IF ~AllDigits(w) \/ DecValue(StripZeros(w)) > 128 \/ q = Len(t) THEN RNo
  ELSE LET x == DecValue(StripZeros(w))
           n == PrefixOctets(x)
           f == TokEnd(t, q)
           a == ReadIp6(Slice(t, q, f - q))
       IN IF a = NoAddr THEN (IF x = 128 THEN RYes(q, <<x>>) ELSE RNo)
          ELSE IF x = 0 /\ ~OnlyBlanks(t, f) THEN RNo
          ELSE LET kept == SubSeq(a, 17 - n, 16)
                   clean == (\A i \in 1..(16 - n) : a[i] = 0) /\ (n = 0 \/ (x % 8) = 0 \/ kept[1] \div (2^(8 - (x % 8))) = 0)
               IN IF n = 0 \/ clean \/ (x % 8) = 0 THEN RYes(f, <<x>> \o kept) ELSE RAny

(* ------------------------------- NSEC3 fields ------------------------------ *)
SaltText(t, p) ==
  LET e == TokEnd(t, p)  w == Slice(t, p, e - p) IN
  IF w = <<45>> THEN RYes(e, <<0>>)
  ELSE IF ~HexPairs(w) \/ Len(w) > 510 THEN RNo
  ELSE RYes(e, <<Len(w) \div 2>> \o UnHex(w))
HashText(t, p) ==
  LET e == TokEnd(t, p)  w == Slice(t, p, e - p) IN
  IF w = <<48>> THEN RYes(e, <<0>>)
  ELSE IF \E i \in 1..Len(w) : w[i] = 61 THEN RAny       \* padding
  ELSE IF (\E i \in 1..Len(w) : ~IsB32(w[i])) \/ (Len(w) * 5) \div 8 > 255 THEN RNo
  ELSE IF GoodB32(w) THEN RYes(e, <<(Len(w) * 5) \div 8>> \o UnB32(w))
  ELSE RAny

(* ------------------------------- type lists ------------------------------- *)
TypeWord(w) ==          \* -1 when no type; 0 only in its plain spelling
  LET v == StrToType(w) IN v
TypeField(t, p) ==
  LET e == TokEnd(t, p)  w == Slice(t, p, e - p)  v == StrToType(w) IN
  IF v = -1 THEN RNo ELSE RIf(v # 0 \/ Upper(w) = S("TYPE0"), e, U16Bytes(v))
BitmapOf(ts) ==         \* of a set of types
  LET ws == SetToSortSeq({x \div 256 : x \in ts}, <)
      Window(w) == LET low == {x % 256 : x \in {y \in ts : y \div 256 = w}}
                       n == (CHOOSE x \in low : \A y \in low : y <= x) \div 8 + 1
                       on(i) == {x % 8 : x \in {y \in low : y \div 8 = i - 1}}
                   IN <<w, n>> \o [i \in 1..n |-> FoldLeft(LAMBDA s, j : s + (IF j \in on(i) THEN 2^(7 - j) ELSE 0), 0, <<0, 1, 2, 3, 4, 5, 6, 7>>)]
  IN ConcatMap(Window, ws)
TypeList(t, p) ==
  LET ws == TLCEval(Words(t, p))
      vs == TLCEval([i \in 1..Len(ws) |-> StrToType(ws[i])])
  IN IF \E i \in 1..Len(ws) : vs[i] = -1 THEN RNo
     ELSE RIf(\A i \in 1..Len(ws) : vs[i] # 0 \/ Upper(ws[i]) = S("TYPE0"), Len(t), BitmapOf({vs[i] : i \in 1..Len(vs)}))

(* ---------------------------- service parameters -------------------------- *)
KeyNames == TLCEval([w \in {KeyText(k) : k \in 0..6} |-> CHOOSE k \in 0..6 : KeyText(k) = w])
(* [k, v]: yes, maybe (leading zeros, or a number of a key with a name... both are read) or no *)
KeyWord(w) ==
  IF w \in DOMAIN KeyNames THEN [k |-> "yes", v |-> KeyNames[w]]
  ELSE LET ds == SubSeq(w, 4, Len(w)) IN
       IF Len(w) < 4 \/ SubSeq(w, 1, 3) # S("key") \/ ~AllDigits(ds) \/ DecValue(StripZeros(ds)) >= 65535 THEN [k |-> "no", v |-> 0]
       ELSE [k |-> IF Len(ds) > 1 /\ ds[1] = 48 THEN "maybe" ELSE "yes", v |-> DecValue(StripZeros(ds))]
Ascending(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
(* alpn: ids between commas, comma and backslash escaped *)
RECURSIVE AlpnSplit(_, _, _, _)
AlpnSplit(v, p, id, ids) ==      \* nothing for a bad escape
  IF p = Len(v) THEN Append(ids, id)
  ELSE LET c == At(v, p) IN
    IF c = BSL THEN (IF p + 1 < Len(v) /\ At(v, p + 1) \in {BSL, COMMA} THEN AlpnSplit(v, p + 2, Append(id, At(v, p + 1)), ids) ELSE <<>>)
    ELSE IF c = COMMA THEN AlpnSplit(v, p + 1, <<>>, Append(ids, id))
    ELSE AlpnSplit(v, p + 1, Append(id, c), ids)
(* the value octets a parameter's decoded text denotes *)
ParamValue(key, v) ==
  CASE key = 0 ->
         LET ws == Split(v, COMMA)  ks == TLCEval([i \in 1..Len(ws) |-> KeyWord(ws[i])]) IN
         IF \E i \in 1..Len(ws) : ks[i].k = "no" THEN RNo
         ELSE RIf((\A i \in 1..Len(ws) : ks[i].k = "yes") /\ Ascending([i \in 1..Len(ws) |-> ks[i].v]), 0, ConcatMap(LAMBDA x : U16Bytes(x.v), ks))
    [] key = 1 ->
         LET ids == AlpnSplit(v, 0, <<>>, <<>>) IN
         IF ids = <<>> \/ \E i \in 1..Len(ids) : Len(ids[i]) > 255 THEN RNo
         ELSE RIf(\A i \in 1..Len(ids) : ids[i] # <<>>, 0, ConcatMap(LAMBDA x : <<Len(x)>> \o x, ids))
    [] key = 2 -> RNo
    [] key = 3 -> IF ~AllDigits(v) \/ DecValue(StripZeros(v)) > 65535 THEN RNo
                  ELSE RYes(0, U16Bytes(DecValue(StripZeros(v))))
    [] key = 4 -> LET ws == Split(v, COMMA) IN
                  IF \E i \in 1..Len(ws) : ReadIp4(ws[i]) = NoAddr THEN RNo ELSE RYes(0, ConcatMap(ReadIp4, ws))
    [] key = 5 -> IF v = <<>> THEN RMaybe(0, <<>>) ELSE IF \E i \in 1..Len(v) : Blank(v[i]) THEN RAny ELSE Base64Rest(v)
    [] key = 6 -> LET ws == Split(v, COMMA) IN
                  IF \E i \in 1..Len(ws) : ReadIp6(ws[i]) = NoAddr THEN RNo ELSE RYes(0, ConcatMap(ReadIp6, ws))
    [] OTHER -> RYes(0, v)

RECURSIVE KeyEnd(_, _)
KeyEnd(t, p) == IF p < Len(t) /\ ~Blank(At(t, p)) /\ At(t, p) # 61 THEN KeyEnd(t, p + 1) ELSE p
RECURSIVE Params(_, _, _, _, _)
Params(t, p, out, last, sure) ==
  LET q == SkipBlanks(t, p) IN
  IF q = Len(t) THEN RIf(sure, q, out)
  ELSE
    LET e == KeyEnd(t, q)
        key == KeyWord(Slice(t, q, e - q))
        valued == e < Len(t) /\ At(t, e) = 61
        sure2 == sure /\ key.k = "yes" /\ key.v > last
        Add(next, v, s) == Params(t, next, out \o U16Bytes(key.v) \o U16Bytes(Len(v)) \o v, key.v, s)
    IN
    IF key.k = "no" THEN RNo
    ELSE IF ~valued THEN
      IF key.v = 2 THEN Add(e, <<>>, sure2) ELSE IF key.v > 6 THEN Add(e, <<>>, FALSE) ELSE RNo
    ELSE IF key.v = 2 THEN RNo
    ELSE IF e + 1 = Len(t) \/ Blank(At(t, e + 1)) THEN (IF key.v > 6 \/ key.v = 5 THEN Add(e + 1, <<>>, FALSE) ELSE RNo)
    ELSE LET s == Scan(t, e + 1) IN
         IF ~s.ok THEN RNo
         ELSE LET v == ParamValue(key.v, s.out) IN
              IF v.k = "no" \/ Len(v.out) > 65535 THEN RNo
              ELSE IF v.k = "any" THEN RAny
              ELSE Add(s.next, v.out, sure2 /\ v.k = "yes" /\ ~s.odd)

(* --------------------------------- fields --------------------------------- *)
NameField(t, p) ==
  LET e == TokEnd(t, p)  w == Slice(t, p, e - p)  r == StrToName(w, FALSE) IN
  IF r.res = "ok" THEN RYes(e, r.out)
  ELSE IF w[Len(w)] = BSL /\ e < Len(t) THEN RAny       \* an escaped blank
  ELSE RNo
TextField(t, p) ==
  IF At(t, p) # DQ THEN RNo
  ELSE LET s == Scan(t, p) IN
       IF ~s.ok \/ ~OnlyBlanks(t, s.next) THEN RNo ELSE RIf(s.next = Len(t) /\ s.out # <<>>, Len(t), s.out)

ReadField(k, t, p) ==
  CASE k = "name" -> NameField(t, p)
    [] k = "bytes" -> HexRest(t, p)
    [] k = "base64" -> [Base64Rest(From(t, p)) EXCEPT !.next = Len(t)]
    [] k = "text" -> TextField(t, p)
    [] k = "int8" -> Number(t, p, 255)
    [] k = "int16" -> Number(t, p, 65535)
    [] k = "int32" -> Number32(t, p)
    [] k = "rrtype" -> TypeField(t, p)
    [] k = "ipv4" -> Address4(t, p)
    [] k = "ipv6" -> Address6(t, p)
    [] k = "eui48" -> Eui(t, p, 6)
    [] k = "eui64" -> Eui(t, p, 8)
    [] k = "ipv6prefix" -> Prefix(t, p)
    [] k = "salt" -> SaltText(t, p)
    [] k = "hash" -> HashText(t, p)
    [] k = "string" -> StringField(t, p)
    [] k = "repstring" -> StringFields(t, p, <<>>, TRUE)
    [] k = "bitmap" -> TypeList(t, p)
    [] k = "svcparams" -> Params(t, p, <<>>, -1, TRUE)
    [] OTHER -> RAny

RECURSIVE ReadFields(_, _, _, _, _)
ReadFields(fs, t, p, out, sure) ==
  LET q == SkipBlanks(t, p) IN
  IF q = Len(t) THEN RIf(sure, q, out)              \* trailing fields may be missing
  ELSE IF fs = <<>> THEN RNo                        \* text left over
  ELSE LET r == ReadField(Head(fs), t, q) IN
       IF r.k \in {"no", "any"} THEN r
       ELSE ReadFields(Tail(fs), t, r.next, out \o r.out, sure /\ r.k = "yes")

(* \# length hex... *)
GenericRead(t) ==
  IF Len(t) < 3 \/ SubSeq(t, 1, 2) # S("\\#") \/ ~Blank(t[3]) THEN RNo
  ELSE LET p == SkipBlanks(t, 2)
           e == TokEnd(t, p)
           w == Slice(t, p, e - p)
           hs == TLCEval(Words(t, e))
       IN IF ~AllDigits(w) \/ (\E i \in 1..Len(hs) : ~HexPairs(hs[i])) THEN RNo
          ELSE LET v == TLCEval(ConcatMap(UnHex, hs)) IN
               IF DecValue(StripZeros(w)) = Len(v) /\ Len(v) <= MaxRdata THEN RYes(Len(t), v) ELSE RNo

OddBlank(t) == \E i \in 1..Len(t) : t[i] = 11 \/ t[i] = 12
ReadText(t, ty, cl) ==
  IF OddBlank(t) THEN RAny
  ELSE IF ~Known(ty) THEN GenericRead(t)
  ELSE IF ~InClass(ty, cl) THEN RAny
  ELSE IF Len(t) > 2 /\ SubSeq(t, 1, 2) = S("\\#") /\ Blank(t[3]) THEN RAny
  ELSE LET r == ReadFields(Fields(ty), t, 0, <<>>, TRUE) IN
       IF r.k \in {"yes", "maybe"} /\ Len(r.out) > MaxRdata THEN RNo ELSE r

(* ------------------------ data that must round-trip ----------------------- *)
RECURSIVE BitmapCanon(_, _, _)
BitmapCanon(d, p, w) ==      \* ascending windows, none with a useless last octet
  IF p = Len(d) THEN TRUE
  ELSE IF p + 2 > Len(d) \/ p + 2 + At(d, p + 1) > Len(d) \/ At(d, p + 1) = 0 THEN FALSE
  ELSE At(d, p) > w /\ At(d, p + 1 + At(d, p + 1)) # 0 /\ BitmapCanon(d, p + 2 + At(d, p + 1), At(d, p))
ListedKeys(v) == [i \in 1..(Len(v) \div 2) |-> U16(v, 2 * (i - 1))]
RECURSIVE ParamsCanon(_, _, _)
ParamsCanon(d, p, last) ==
  IF p = Len(d) THEN TRUE
  ELSE LET k == U16(d, p)  n == U16(d, p + 2)  v == Slice(d, p + 4, n) IN
       /\ k > last
       /\ (k \in {0, 1, 4, 5, 6} => n > 0)
       /\ (k = 0 => Ascending(ListedKeys(v)) /\ \A i \in 1..(n \div 2) : ListedKeys(v)[i] # 65535)
       /\ (k = 1 => \A i \in 1..Len(AlpnIds(v, 0)) : AlpnIds(v, 0)[i] # <<>>)
       /\ ParamsCanon(d, p + 4 + n, k)
RECURSIVE CanonFrom(_, _, _)
CanonFrom(fs, d, p) ==
  IF fs = <<>> THEN p = Len(d)
  ELSE LET k == Head(fs) IN
    CASE k = "bitmap" -> BitmapCanon(d, p, -1)
      [] k = "svcparams" -> ParamsCanon(d, p, -1)
      [] k = "ipv6prefix" ->
           LET x == At(d, p)  n == PrefixOctets(x) IN
           IF x = 0 THEN Len(d) = p + 17
           ELSE ((x % 8) = 0 \/ At(d, p + 1) \div (2^(8 - (x % 8))) = 0) /\ CanonFrom(Tail(fs), d, p + 1 + n)
      [] OTHER -> IF p = Len(d) THEN Len(fs) = 1 /\ k \in {"bytes", "base64", "text", "repstring"}
                  ELSE CanonFrom(Tail(fs), d, ParseField(k, d, p, Len(d)).next)
(* complete and canonical; p = Len(d) is reached early only where the rest is empty *)
RoundTrips(d, t, c) ==
  IF ~Known(t) THEN TRUE
  ELSE /\ t # 41 /\ InClass(t, c) /\ ParserData(d, t, c)
       /\ (d = <<>> => Len(Fields(t)) = 1 /\ Fields(t)[1] \in {"bytes", "base64", "text", "repstring"})
       /\ CanonFrom(Fields(t), d, 0)
=============================================================================
