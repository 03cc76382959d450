------------------------------ MODULE RdataLaws ------------------------------
(* Laws tying together what the parser stores, what the printer writes, what
   the reader reads and what folding changes, over every combination of a few
   values of each field of every type: whole, with trailing fields missing, cut
   by an octet, and with an octet too many.                                   *)
(* The variables have long names: TLC does not compute a table once and for all
   when a name bound in it is also that of a variable.                        *)
EXTENDS RdataText
CONSTANTS Deep
VARIABLES rt, rc, rd, phase
vars == <<rt, rc, rd, phase>>

Z(n) == Repeat(0, n)
Few(k) ==
  CASE k = "name" -> {<<0>>, <<1, 97, 0>>, <<2, 65, 46, 1, 92, 0>>}
    [] k = "bytes" -> {<<>>, <<0>>, <<255, 9>>}
    [] k = "base64" -> {<<>>, <<0>>, <<255, 9>>, <<1, 2, 3>>}
    [] k = "text" -> {<<>>, <<34, 92>>, <<32, 200>>}
    [] k = "options" -> {<<>>, <<0, 3, 0, 1, 65>>}
    [] k = "int8" -> {<<0>>, <<255>>}
    [] k = "int16" -> {<<0, 7>>, <<255, 255>>}
    [] k = "int32" -> {<<0, 0, 0, 0>>, <<255, 255, 255, 255>>}
    [] k = "rrtype" -> {<<0, 1>>, <<255, 0>>}
    [] k = "ipv4" -> {<<192, 0, 2, 1>>, Z(4)}
    [] k = "ipv6" -> {Z(16), Z(15) \o <<1>>, <<32, 1, 13, 184>> \o Z(12), Z(10) \o <<255, 255, 1, 2, 3, 4>>}
    [] k = "eui48" -> {Z(6), <<0, 170, 255, 1, 2, 3>>}
    [] k = "eui64" -> {Z(8), <<0, 170, 255, 1, 2, 3, 4, 5>>}
    [] k = "string" -> {<<0>>, <<1, 200>>, <<3, 34, 92, 32>>}
    [] k = "salt" -> {<<0>>, <<2, 0, 171>>}
    [] k = "hash" -> {<<0>>, <<1, 255>>, <<5, 1, 2, 3, 4, 5>>}
    [] k = "repstring" -> {<<>>, <<0>>, <<1, 65, 2, 34, 0>>, <<1, 65, 0, 1, 66>>}
    [] k = "ipv6prefix" -> {<<0>> \o Repeat(1, 16), <<128>>, <<64>> \o Repeat(9, 8), <<1, 127>> \o Z(15), <<1, 255>> \o Z(15), <<121, 0>>, <<121, 1>>, <<121, 128>>, <<129>>}
    [] k = "bitmap" -> {<<>>, <<0, 1, 64>>, <<0, 1, 2, 1, 1, 1>>, <<1, 1, 1, 0, 1, 64>>, <<0, 2, 64, 0>>, <<255, 32>> \o Z(31) \o <<1>>, <<0, 0>>, <<0, 33>> \o Z(33)}
    [] k = "svcparams" -> {<<>>, <<0, 1, 0, 3, 2, 104, 50>>, <<0, 1, 0, 4, 1, 44, 1, 92>>, <<0, 3, 0, 2, 1, 187>>, <<0, 0, 0, 2, 0, 3, 0, 3, 0, 2, 0, 80>>,
                           <<0, 2, 0, 0>>, <<0, 4, 0, 4, 1, 2, 3, 4>>, <<0, 5, 0, 1, 9>>, <<0, 6, 0, 16>> \o Z(16), <<0, 9, 0, 0>>, <<2, 0, 0, 2, 34, 0>>, <<0, 1, 0, 2, 2, 65>>, <<0, 3, 0, 2, 0, 1, 0, 1, 0, 2, 1, 65>>}
    [] OTHER -> {<<>>}
(* of long layouts, one value of each but the rarer kinds *)
One(k) == IF k \in {"int8", "int16", "int32", "rrtype"} THEN {CHOOSE x \in Few(k) : x[1] # 0 \/ Len(x) = 1 \/ k = "int16"} ELSE Few(k)
Values(k, long) == IF long THEN One(k) ELSE Few(k)
RECURSIVE Products(_, _)
Products(fs, long) == IF fs = <<>> THEN {<<>>} ELSE {x \o y : x \in Values(Head(fs), long), y \in Products(Tail(fs), long)}
Long(fs) == Len(fs) > (IF Deep THEN 5 ELSE 3)
Whole(ty) == LET fs == Fields(ty) IN UNION {Products(SubSeq(fs, 1, k), Long(fs)) : k \in 0..Len(fs)}
Cut1(x) == SubSeq(x, 1, Len(x) - 1)
(* deep: every beginning of it, and every octet made 0, 255 or one more *)
Near(x) == {SubSeq(x, 1, n) : n \in 0..(Len(x) - 1)} \cup {[x EXCEPT ![i] = v] : i \in 1..Len(x), v \in {0, 1, 64, 255}}
           \cup {[x EXCEPT ![i] = (@ + 1) % 256] : i \in 1..Len(x)} \cup {Append(x, v) : v \in {0, 1, 255}}
DataOf(ty) ==
  IF ~Known(ty) THEN {<<>>, <<0>>, <<34, 10>>, <<1, 97, 0>>, Z(20)}
  ELSE LET w == Whole(ty) IN
       IF Deep THEN w \cup UNION {Near(x) : x \in w}
       ELSE w \cup {Cut1(x) : x \in {y \in w : y # <<>>}} \cup {Append(x, 0) : x \in w}
Types == DOMAIN Layouts \cup {0, 42, 300, 65535}

Init == rt \in Types /\ rc \in {1, 3} /\ rd = <<>> /\ phase = 0
Next == /\ phase = 0 /\ phase' = 1 /\ rd' \in DataOf(rt) /\ (rc = 1 \/ Len(rd') % 3 = 0) /\ UNCHANGED <<rt, rc>>
Spec == Init /\ [][Next]_vars

P == RdataPrint(<<>>, rd, rt, rc)
Stored == ParseRdata(rd, 0, Len(rd), rt, rc)
Layed == HasLayout(rt, rc)
(* no compression here: what is stored is what came, and would be stored again *)
Kept == Stored.ok => Stored.out = rd /\ ParserData(rd, rt, rc)
(* whatever the parser stores has a text without error marker; text of data it would not store is marked or read as something else *)
Printable == Stored.ok /\ rt # 41 => P.ok
Typed == Known(rt) /\ ~InClass(rt, rc) => Stored.ok
(* an empty value may be refused: of a text field, of a parameter *)
Lenient == Known(rt) /\ Fields(rt)[Len(Fields(rt))] \in {"text", "svcparams"}
(* whole canonical data is what its text denotes *)
Trip == (RoundTrips(rd, rt, rc) /\ P.ok /\ ~P.any) => LET r == ReadText(P.out, rt, rc) IN r.out = rd /\ (r.k = "yes" \/ Lenient)
(* nothing a text denotes is data a message could not carry, and its text denotes it again *)
Denotes == (P.ok /\ ~P.any) => LET r == ReadText(P.out, rt, rc) IN
        r.k \in {"yes", "maybe"} /\ Layed => /\ ParserData(r.out, rt, rc)
                                   /\ LET p2 == RdataPrint(<<>>, r.out, rt, rc) IN p2.ok /\ ~p2.any => ReadText(p2.out, rt, rc).out = r.out
(* two data with one text are the same data, or the text is not that of canonical data *)
Marked == (rt # 41 /\ ~P.ok /\ ~P.any) => ~ParserData(rd, rt, rc)
(* folding: nothing but letters, nothing outside names, once and for all *)
F == FoldRdata(rd, rt, rc)
Folding == Stored.ok =>
  /\ Len(F) = Len(rd) /\ \A i \in 1..Len(rd) : F[i] \in {rd[i], LowerTab[rd[i]]}
  /\ ParserData(F, rt, rc) /\ FoldRdata(F, rt, rc) = F
  /\ (~(rt \in FoldTypes) \/ ~Layed \/ "name" \notin {Fields(rt)[i] : i \in 1..Len(Fields(rt))}) => F = rd
  /\ (P.ok /\ ~P.any => LET p2 == RdataPrint(<<>>, F, rt, rc) IN p2.ok /\ Lower(p2.out) = Lower(P.out))
(* an RFC 3597 text of a type without a layout *)
Generic == ~Known(rt) => ReadText(P.out, rt, rc) = RYes(Len(P.out), rd)
=============================================================================
