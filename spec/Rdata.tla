------------------------------- MODULE Rdata -------------------------------
(* Record data: the layout of each known type, what the parser accepts and
   stores, how it prints, and which of its letters canonical folding lowers.  *)
EXTENDS Names, Registry, Codecs

(* the layouts: a class restriction (0 = any, 1 = Internet only) and fields *)
L(c, f) == [cls |-> c, f |-> f]
Layouts == TLCEval(
  (1 :> L(1, <<"ipv4">>)) @@ (2 :> L(0, <<"name">>)) @@ (3 :> L(0, <<"name">>)) @@ (4 :> L(0, <<"name">>)) @@
  (5 :> L(0, <<"name">>)) @@
  (6 :> L(0, <<"name", "name", "int32", "int32", "int32", "int32", "int32">>)) @@
  (7 :> L(0, <<"name">>)) @@ (8 :> L(0, <<"name">>)) @@ (9 :> L(0, <<"name">>)) @@ (10 :> L(0, <<"bytes">>)) @@
  (11 :> L(1, <<"int32", "int8", "bytes">>)) @@ (12 :> L(0, <<"name">>)) @@ (13 :> L(0, <<"string", "string">>)) @@
  (14 :> L(0, <<"name", "name">>)) @@ (15 :> L(0, <<"int16", "name">>)) @@ (16 :> L(0, <<"repstring">>)) @@
  (17 :> L(0, <<"name", "name">>)) @@ (18 :> L(0, <<"int16", "name">>)) @@ (19 :> L(0, <<"string">>)) @@
  (20 :> L(0, <<"string", "string">>)) @@ (21 :> L(0, <<"int16", "name">>)) @@
  (24 :> L(0, <<"int16", "int8", "int8", "int32", "int32", "int32", "int16", "name", "bytes">>)) @@
  (26 :> L(1, <<"int16", "name", "name">>)) @@ (28 :> L(1, <<"ipv6">>)) @@ (30 :> L(0, <<"name", "bytes">>)) @@
  (33 :> L(1, <<"int16", "int16", "int16", "name">>)) @@
  (35 :> L(1, <<"int16", "int16", "string", "string", "string", "name">>)) @@
  (36 :> L(1, <<"int16", "name">>)) @@ (38 :> L(1, <<"ipv6prefix", "name">>)) @@ (39 :> L(0, <<"name">>)) @@
  (41 :> L(0, <<"options">>)) @@ (43 :> L(0, <<"int16", "int8", "int8", "bytes">>)) @@
  (46 :> L(0, <<"rrtype", "int8", "int8", "int32", "int32", "int32", "int16", "name", "base64">>)) @@
  (47 :> L(0, <<"name", "bitmap">>)) @@ (48 :> L(0, <<"int16", "int8", "int8", "base64">>)) @@
  (50 :> L(0, <<"int8", "int8", "int16", "salt", "hash", "bitmap">>)) @@
  (51 :> L(0, <<"int8", "int8", "int16", "salt">>)) @@ (52 :> L(0, <<"int8", "int8", "int8", "bytes">>)) @@
  (59 :> L(0, <<"int16", "int8", "int8", "bytes">>)) @@ (60 :> L(0, <<"int16", "int8", "int8", "base64">>)) @@
  (61 :> L(0, <<"base64">>)) @@ (62 :> L(0, <<"int32", "int16", "bitmap">>)) @@
  (64 :> L(1, <<"int16", "name", "svcparams">>)) @@ (65 :> L(1, <<"int16", "name", "svcparams">>)) @@
  (99 :> L(0, <<"repstring">>)) @@ (108 :> L(0, <<"eui48">>)) @@ (109 :> L(0, <<"eui64">>)) @@
  (256 :> L(0, <<"int16", "int16", "text">>)) @@ (257 :> L(1, <<"int8", "string", "text">>)))

Known(t) == t \in DOMAIN Layouts
InClass(t, c) == Layouts[t].cls = 0 \/ Layouts[t].cls = c
HasLayout(t, c) == Known(t) /\ InClass(t, c)
Fields(t) == Layouts[t].f

FixedSize == ("int8" :> 1) @@ ("int16" :> 2) @@ ("rrtype" :> 2) @@ ("int32" :> 4) @@ ("ipv4" :> 4) @@
             ("ipv6" :> 16) @@ ("eui48" :> 6) @@ ("eui64" :> 8)
IsFixed(k) == k \in DOMAIN FixedSize
IsRest(k) == k \in {"bytes", "base64", "text", "options"}      \* all that remains
IsCounted(k) == k \in {"string", "salt", "hash"}              \* a length octet and that many
PrefixOctets(p) == (128 - p + 7) \div 8

(* --------------------------- service parameters -------------------------- *)
RECURSIVE AlpnTiles(_, _, _)
AlpnTiles(b, p, e) == IF p = e THEN TRUE ELSE IF p > e THEN FALSE ELSE AlpnTiles(b, p + 1 + At(b, p), e)
ParamOk(key, b, p, n) ==
  CASE key = 0 -> (n % 2) = 0
    [] key = 1 -> n > 0 /\ AlpnTiles(b, p, p + n)
    [] key = 2 -> n = 0
    [] key = 3 -> n = 2
    [] key = 4 -> (n % 4) = 0
    [] key = 6 -> (n % 16) = 0
    [] key = 65535 -> FALSE
    [] OTHER -> TRUE
RECURSIVE ParamsEnd(_, _, _)
ParamsEnd(b, p, e) ==       \* the end when the parameters tile p..e, else -1
  IF p = e THEN e
  ELSE IF p + 4 > e THEN -1
  ELSE LET n == U16(b, p + 2) IN
       IF p + 4 + n > e \/ ~ParamOk(U16(b, p), b, p + 4, n) THEN -1 ELSE ParamsEnd(b, p + 4 + n, e)

(* ------------------------------ type bitmaps ------------------------------ *)
RECURSIVE WindowsEnd(_, _, _)
WindowsEnd(b, p, e) ==      \* where whole windows stop, or -1 for a bad one
  IF p + 2 > e THEN p
  ELSE LET n == At(b, p + 1) IN
       IF n < 1 \/ n > 32 \/ p + 2 + n > e THEN -1 ELSE WindowsEnd(b, p + 2 + n, e)

RECURSIVE StringsEnd(_, _, _)
StringsEnd(b, p, e) == IF p = e THEN e ELSE IF p + 1 + At(b, p) > e THEN -1 ELSE StringsEnd(b, p + 1 + At(b, p), e)

(* -------------------- parsing: message octets to stored -------------------- *)
(* One field at p in b, the record data ending at e: [ok, next, out]. *)
FOk(next, out) == [ok |-> TRUE, next |-> next, out |-> out]
FBad == [ok |-> FALSE, next |-> 0, out |-> <<>>]
Verbatim(b, p, q) == FOk(q, Slice(b, p, q - p))
ParseField(k, b, p, e) ==
  CASE k = "name" ->
         LET u == Unpack(b, p)  q == SkipFrom(b, p) IN
         IF u.res # "ok" \/ q > e THEN FBad ELSE FOk(q, u.out)
    [] IsRest(k) -> Verbatim(b, p, e)
    [] IsFixed(k) -> IF p + FixedSize[k] > e THEN FBad ELSE Verbatim(b, p, p + FixedSize[k])
    [] IsCounted(k) -> LET q == p + 1 + At(b, p) IN IF q > e THEN FBad ELSE Verbatim(b, p, q)
    [] k = "repstring" -> LET q == StringsEnd(b, p, e) IN IF q = -1 THEN FBad ELSE Verbatim(b, p, q)
    [] k = "ipv6prefix" ->
         IF At(b, p) > 128 THEN FBad
         ELSE LET q == p + 1 + PrefixOctets(At(b, p)) IN IF q > e THEN FBad ELSE Verbatim(b, p, q)
    [] k = "bitmap" -> LET q == WindowsEnd(b, p, e) IN IF q = -1 THEN FBad ELSE Verbatim(b, p, q)
    [] k = "svcparams" -> LET q == ParamsEnd(b, p, e) IN IF q = -1 THEN FBad ELSE Verbatim(b, p, q)

RECURSIVE ParseFields(_, _, _, _, _)
ParseFields(fs, b, p, e, out) ==
  IF p = e THEN FOk(e, out)                    \* trailing whole fields may be missing
  ELSE IF fs = <<>> THEN FBad                  \* octets left over
  ELSE LET r == ParseField(Head(fs), b, p, e) IN
       IF ~r.ok THEN FBad ELSE ParseFields(Tail(fs), b, r.next, e, out \o r.out)

MaxRdata == 65535
(* [ok, out]: record data of n octets at p of message b *)
ParseRdata(b, p, n, t, c) ==
  IF ~HasLayout(t, c) THEN [ok |-> TRUE, out |-> Slice(b, p, n)]
  ELSE LET r == ParseFields(Fields(t), b, p, p + n, <<>>) IN
       [ok |-> r.ok /\ Len(r.out) <= MaxRdata, out |-> r.out]
(* stored data that a message could carry as it stands *)
ParserData(d, t, c) == LET r == ParseRdata(d, 0, Len(d), t, c) IN r.ok /\ r.out = d

(* all fields present: the data that has an unabridged presentation *)
RECURSIVE CompleteFrom(_, _, _)
CompleteFrom(fs, d, p) ==
  IF fs = <<>> THEN p = Len(d)
  ELSE IF p = Len(d) THEN \A i \in 1..Len(fs) : fs[i] \in {"svcparams", "bitmap", "bytes", "base64", "options"}
  ELSE LET r == ParseField(Head(fs), d, p, Len(d)) IN r.ok /\ CompleteFrom(Tail(fs), d, r.next)

(* ------------------------------- printing --------------------------------- *)
StrEsc == TLCEval([c \in Byte |-> IF c = DQ \/ c = BSL THEN <<BSL, c>> ELSE IF IsPrint(c) THEN <<c>> ELSE <<BSL>> \o Dec3(c)])
Quoted(s) == <<DQ>> \o ConcatMap(LAMBDA c : StrEsc[c], s) \o <<DQ>>
QuotedSp(s) == Append(Quoted(s), SP)

KeyText(k) ==
  CASE k = 0 -> S("mandatory") [] k = 1 -> S("alpn") [] k = 2 -> S("no-default-alpn") [] k = 3 -> S("port")
    [] k = 4 -> S("ipv4hint") [] k = 5 -> S("ech") [] k = 6 -> S("ipv6hint") [] OTHER -> S("key") \o Dec(k)

AlpnEsc == TLCEval([c \in Byte |->
   IF c = DQ THEN <<BSL, DQ>> ELSE IF c = BSL THEN <<BSL, BSL, BSL, BSL>>
   ELSE IF c = COMMA THEN <<BSL, BSL, COMMA>> ELSE IF IsPrint(c) THEN <<c>> ELSE <<BSL>> \o Dec3(c)])
RECURSIVE AlpnIds(_, _)
AlpnIds(v, p) == IF p >= Len(v) THEN <<>> ELSE <<Slice(v, p + 1, At(v, p))>> \o AlpnIds(v, p + 1 + At(v, p))
Chunks(v, n) == [i \in 1..(Len(v) \div n) |-> SubSeq(v, n * (i - 1) + 1, n * i)]

ParamText(k, v) ==       \* for values the parser accepts
  CASE k = 0 -> LET ks == Chunks(v, 2) IN
                IF ks = <<>> THEN <<>> ELSE Append(Join([i \in 1..Len(ks) |-> KeyText(U16(ks[i], 0))], <<COMMA>>), SP)
    [] k = 1 -> <<DQ>> \o Join([i \in 1..Len(AlpnIds(v, 0)) |-> ConcatMap(LAMBDA c : AlpnEsc[c], AlpnIds(v, 0)[i])], <<COMMA>>) \o <<DQ, SP>>
    [] k = 2 -> <<SP>>
    [] k = 3 -> Append(Dec(U16(v, 0)), SP)
    [] k = 4 -> IF v = <<>> THEN <<>> ELSE Append(Join([i \in 1..(Len(v) \div 4) |-> Ip4Text(Chunks(v, 4)[i])], <<COMMA>>), SP)
    [] k = 5 -> Append(B64(v), SP)
    [] k = 6 -> IF v = <<>> THEN <<>> ELSE Append(Join([i \in 1..(Len(v) \div 16) |-> Ip6Text(Chunks(v, 16)[i])], <<COMMA>>), SP)
    [] OTHER -> QuotedSp(v)

(* printed fields: [ok, out, next], or not ok with what must come before the error marker *)
POk(out, next) == [ok |-> TRUE, any |-> FALSE, out |-> out, next |-> next]
PBad(out) == [ok |-> FALSE, any |-> FALSE, out |-> out, next |-> 0]
PAny == [ok |-> TRUE, any |-> TRUE, out |-> <<>>, next |-> 0]    \* nothing promised about the text

NamesInvalidKey(d, p, n) == \E i \in 0..(n \div 2 - 1) : U16(d, p + 2 * i) = 65535
RECURSIVE ParamsText(_, _, _)
ParamsText(d, p, out) ==
  IF p = Len(d) THEN POk(out, p)
  ELSE IF p + 2 > Len(d) \/ U16(d, p) = 65535 THEN PBad(out)
  ELSE IF p + 4 > Len(d) \/ p + 4 + U16(d, p + 2) > Len(d) THEN PBad(out \o KeyText(U16(d, p)))
  ELSE LET k == U16(d, p)  n == U16(d, p + 2)  pre == out \o KeyText(k) \o (IF k = 2 THEN <<>> ELSE <<61>>) IN
       IF ParamOk(k, d, p + 4, n) \/ (k = 1 /\ n = 0) THEN
         (IF (n = 0 /\ k = 1) \/ (k = 0 /\ NamesInvalidKey(d, p + 4, n)) THEN PAny ELSE ParamsText(d, p + 4 + n, pre \o ParamText(k, Slice(d, p + 4, n))))
       ELSE PBad(pre)

RECURSIVE StringsText(_, _, _)
StringsText(d, p, out) ==
  IF p = Len(d) THEN POk(out, p)
  ELSE IF p + 1 + At(d, p) > Len(d) THEN PBad(out)
  ELSE StringsText(d, p + 1 + At(d, p), out \o QuotedSp(Slice(d, p + 1, At(d, p))))

WindowTypes(d, p) ==      \* types listed by the window at p, in ascending order
  LET w == At(d, p)  n == At(d, p + 1)
      bits == [i \in 1..(8 * n) |-> i - 1]
      on == SelectSeq(bits, LAMBDA i : BitAt(At(d, p + 2 + i \div 8), i % 8) = 1)
  IN [i \in 1..Len(on) |-> w * 256 + on[i]]
RECURSIVE BitmapText(_, _, _)
BitmapText(d, p, out) ==
  IF p + 2 > Len(d) THEN (IF p = Len(d) THEN POk(out, p) ELSE PAny)
  ELSE IF p + 2 + At(d, p + 1) > Len(d) THEN PBad(out)
  ELSE IF At(d, p + 1) > 32 THEN PAny
  ELSE BitmapText(d, p + 2 + At(d, p + 1), out \o ConcatMap(LAMBDA t : Append(TypeText(t), SP), WindowTypes(d, p)))

(* EDNS options *)
EdePurpose == TLCEval(MapSeq(S, <<
  "Other Error", "Unsupported DNSKEY Algorithm", "Unsupported DS Digest Type", "Stale Answer", "Forged Answer",
  "DNSSEC Indeterminate", "DNSSEC Bogus", "Signature Expired", "Signature Not Yet Valid", "DNSKEY Missing",
  "RRSIGs Missing", "No Zone Key Bit Set", "NSEC Missing", "Cached Error", "Not Ready", "Blocked", "Censored",
  "Filtered", "Prohibited", "Stale NXDomain Answer", "Not Authoritative", "Not Supported",
  "No Reachable Authority", "Network Error", "Invalid Data">>))
Dotted(v) == [i \in 1..Len(v) |-> IF IsPrint(v[i]) THEN v[i] ELSE DOT]
PadTo(v, n) == v \o Repeat(0, n - Len(v))
OptName(c) == CASE c = 8 -> S("CLIENT-SUBNET:") [] c = 15 -> S("EDE:") [] OTHER -> S("OPT=") \o Dec(c) \o S(":")
OptOk(c, v) ==
  CASE c = 8 -> Len(v) >= 4 /\ ((U16(v, 0) = 1 /\ Len(v) <= 8) \/ (U16(v, 0) = 2 /\ Len(v) <= 20))
    [] c = 15 -> Len(v) >= 2
    [] OTHER -> TRUE
OptBody(c, v) ==
  CASE c = 8 -> LET a == From(v, 4) IN
                (IF U16(v, 0) = 1 THEN Ip4Text(PadTo(a, 4)) ELSE Ip6Text(PadTo(a, 16)))
                \o S("/") \o Dec(v[3]) \o S("/") \o Dec(v[4])
    [] c = 15 -> LET n == U16(v, 0) IN
                 Dec(n) \o (IF n < Len(EdePurpose) THEN S(" (") \o EdePurpose[n + 1] \o S(")") ELSE <<>>)
                 \o S(": (") \o Dotted(From(v, 2)) \o S(")")
    [] OTHER -> ConcatMap(LAMBDA x : Append(Hex2L(x), SP), v) \o S("(\"") \o Dotted(v) \o S("\")")
RECURSIVE OptionsText(_, _, _)
OptionsText(d, p, out) ==
  IF p = Len(d) THEN POk(out, p)
  ELSE IF p + 2 > Len(d) THEN PBad(out)
  ELSE IF p + 4 > Len(d) \/ p + 4 + U16(d, p + 2) > Len(d) THEN PBad(out \o OptName(U16(d, p)))
  ELSE LET c == U16(d, p)  n == U16(d, p + 2)  v == Slice(d, p + 4, n) IN
       IF ~OptOk(c, v) THEN PBad(out \o OptName(c))
       ELSE OptionsText(d, p + 4 + n, out \o OptName(c) \o <<SP>> \o OptBody(c, v) \o (IF p + 4 + n < Len(d) THEN <<NL>> ELSE <<>>))

Dashed(v) == Join([i \in 1..Len(v) |-> Hex2L(v[i])], S("-"))

(* one field of d at p *)
FieldText(k, d, p) ==
  LET left == Len(d) - p IN
  CASE k = "name" -> LET n == LenUname(d, p) IN
         IF n.res # "ok" THEN PBad(<<>>) ELSE POk(Append(NameText(Slice(d, p, n.out)), SP), p + n.out)
    [] k = "bytes" -> POk(HexUpper(From(d, p)), Len(d))
    [] k = "base64" -> POk(B64(From(d, p)), Len(d))
    [] k = "text" -> POk(QuotedSp(From(d, p)), Len(d))
    [] IsFixed(k) /\ left < FixedSize[k] -> PBad(<<>>)
    [] k = "int8" -> POk(Append(Dec(At(d, p)), SP), p + 1)
    [] k = "int16" -> POk(Append(Dec(U16(d, p)), SP), p + 2)
    [] k = "int32" -> POk(Append(Dec32(U32(d, p)), SP), p + 4)
    [] k = "rrtype" -> POk(Append(TypeText(U16(d, p)), SP), p + 2)
    [] k = "ipv4" -> POk(Append(Ip4Text(Slice(d, p, 4)), SP), p + 4)
    [] k = "ipv6" -> POk(Append(Ip6Text(Slice(d, p, 16)), SP), p + 16)
    [] k = "eui48" -> POk(Dashed(Slice(d, p, 6)), p + 6)
    [] k = "eui64" -> POk(Dashed(Slice(d, p, 8)), p + 8)
    [] IsCounted(k) ->
         LET n == At(d, p)  v == Slice(d, p + 1, n) IN
         IF p + 1 + n > Len(d) THEN PBad(<<>>)
         ELSE IF k = "string" THEN POk(QuotedSp(v), p + 1 + n)
         ELSE IF k = "salt" THEN POk(IF n = 0 THEN S("- ") ELSE Append(HexLower(v), SP), p + 1 + n)
         ELSE POk(IF n = 0 THEN S("0 ") ELSE Append(B32(v), SP), p + 1 + n)
    [] k = "repstring" -> StringsText(d, p, <<>>)
    [] k = "ipv6prefix" ->
         LET x == At(d, p)  n == PrefixOctets(x) IN
         IF x > 128 \/ p + 1 + n > Len(d) THEN PBad(<<>>)
         ELSE POk(Append(Dec(x), SP) \o (IF n = 0 THEN <<>> ELSE Append(Ip6Text(Repeat(0, 16 - n) \o Slice(d, p + 1, n)), SP)), p + 1 + n)
    [] k = "svcparams" -> ParamsText(d, p, <<>>)
    [] k = "bitmap" -> IF left < 2 THEN PBad(<<>>) ELSE BitmapText(d, p, <<>>)
    [] k = "options" -> OptionsText(d, p, <<>>)

RECURSIVE FieldsText(_, _, _, _)
FieldsText(fs, d, p, out) ==
  IF fs = <<>> \/ p = Len(d) THEN POk(out, p)
  ELSE LET r == FieldText(Head(fs), d, p) IN
       IF r.any THEN PAny
       ELSE IF ~r.ok THEN PBad(out \o r.out)
       ELSE FieldsText(Tail(fs), d, r.next, out \o r.out)

ClipSp(t) == IF t # <<>> /\ t[Len(t)] = SP THEN SubSeq(t, 1, Len(t) - 1) ELSE t
GenericText(d) == S("\\# ") \o Dec(Len(d)) \o <<SP>> \o ConcatMap(LAMBDA c : Append(Hex2L(c), SP), d)

(* the text of data d appended to what stands before it: the last blank goes, whoever wrote it *)
RdataPrint(before, d, t, c) ==
  IF ~Known(t) THEN POk(before \o GenericText(d), 0)
  ELSE IF ~InClass(t, c) THEN POk(before, 0)
  ELSE LET r == FieldsText(Fields(t), d, 0, <<>>) IN
       IF r.any THEN PAny ELSE IF r.ok THEN POk(ClipSp(before \o r.out), 0) ELSE PBad(before \o r.out)

EndsWith(t, s) == Len(t) >= Len(s) /\ SubSeq(t, Len(t) - Len(s) + 1, Len(t)) = s
Marker == S(" ### PARSE ERROR ###")
HasMarker(t) == EndsWith(t, Marker)
   \/ \E n \in 1..15 : EndsWith(t, S(" ### PARSE ERROR #") \o Dec(n) \o S(" ###"))
TextAgrees(t, r) ==      \* is t a text that r allows
  IF r.any THEN TRUE
  ELSE IF r.ok THEN t = r.out
  ELSE IsPrefix(r.out, t) /\ HasMarker(t)

(* --------------------------- canonical folding ---------------------------- *)
FoldTypes == {2, 3, 4, 5, 6, 7, 8, 9, 12, 14, 15, 17, 18, 21, 24, 26, 30, 33, 35, 36, 38, 39}
(* folding of data the message parser produced: letters of embedded names *)
RECURSIVE FoldFields(_, _, _, _)
FoldFields(fs, d, p, out) ==
  IF p = Len(d) \/ fs = <<>> THEN out \o From(d, p)
  ELSE LET r == ParseField(Head(fs), d, p, Len(d))
           v == Slice(d, p, r.next - p)
       IN FoldFields(Tail(fs), d, r.next, out \o (IF Head(fs) = "name" THEN Lower(v) ELSE v))
FoldRdata(d, t, c) == IF t \in FoldTypes /\ InClass(t, c) THEN FoldFields(Fields(t), d, 0, <<>>) ELSE d
=============================================================================
