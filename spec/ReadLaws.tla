------------------------------ MODULE ReadLaws ------------------------------
(* Laws of reading record data, over the texts near the printed ones: a word
   replaced by each of a vocabulary, left out, doubled, or put in front, and
   the blanks between words varied.                                           *)
EXTENDS RdataLaws
VARIABLES txt
vars2 == <<rt, rc, rd, phase, txt>>

Vocabulary == TLCEval({S(x) : x \in {
  "0", "00", "1", "007", "255", "256", "65535", "65536", "4294967295", "4294967296", "-1", "+1", "0x1", "1a",
  ".", "a.", "a", "a..", "\\046.", "\\256.", "\\", "A.b\\.c.", "*",
  "A", "aaaa", "TYPE0", "TYPE00", "type65535", "TYPE65536", "TYPE", "ANY",
  "-", "0G", "AB", "abc", "g0", "0G======", "vvvv",
  "1.2.3.4", "1.2.3", "1.2.3.256", "01.2.3.4", "::", "1::", "::1.2.3.4", ":::", "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7::", "::g",
  "\"\"", "\"a b\"", "\"a", "a\"", "\"a\"b", "\"\\\"\\\\\"", "\"\\200\"", "\"\\1\"",
  "00-11-22-33-44-55", "00-11-22-33-44-5", "00-11-22-33-44-55-66-77", "001122334455",
  "AA==", "AAA=", "AAAA", "A===", "AB==", "////",
  "\\#", "port=1", "port=65536", "port=", "port", "no-default-alpn", "no-default-alpn=", "no-default-alpn=1",
  "alpn=a,b", "alpn=\"a\\\\,b\"", "alpn=\"\\\\a\"", "alpn=,", "alpn=", "ipv4hint=1.2.3.4,1.2.3.5", "ipv4hint=1.2.3.4,", "ipv6hint=::,::1",
  "ech=AA==", "ech=", "mandatory=port", "mandatory=alpn,port", "mandatory=port,alpn", "mandatory=key3", "mandatory=key03", "mandatory=mandatory", "mandatory=",
  "key3=1", "key7", "key7=", "key7=\"a b\"", "key07=a", "key65534=a", "key65535=a", "key=a", "Port=1", "junk=1", "=1"}})
NumWords == TLCEval({S(x) : x \in {"0", "256", "65536", "a.", "-", "\"a\"", "::", "key7"}})
WordsFor(n) == IF n > 4 /\ ~Deep THEN NumWords ELSE Vocabulary

(* words between blanks outside quotes *)
RECURSIVE WordCut(_, _, _, _, _)
WordCut(x, p, q, w, ws) ==
  IF p > Len(x) THEN (IF w = <<>> THEN ws ELSE Append(ws, w))
  ELSE IF x[p] = BSL /\ p < Len(x) THEN WordCut(x, p + 2, q, w \o <<x[p], x[p + 1]>>, ws)
  ELSE IF x[p] = SP /\ ~q THEN WordCut(x, p + 1, q, <<>>, IF w = <<>> THEN ws ELSE Append(ws, w))
  ELSE WordCut(x, p + 1, (x[p] = DQ) # q, Append(w, x[p]), ws)
Line(ws) == Join(ws, <<SP>>)

Bases(ty) == {x \in (IF Known(ty) THEN LET fs == Fields(ty) IN Products(fs, Len(fs) > (IF Deep THEN 3 ELSE 2)) ELSE {<<>>, <<1>>, <<1, 2, 255>>}) :
                 LET p == RdataPrint(<<>>, x, ty, 1) IN p.ok /\ ~p.any /\ Len(p.out) < 120}
TextOf(ty, x) == LET p == RdataPrint(<<>>, x, ty, 1) IN p.out
Thin(B) == LET s == SetToSeq(B)  n == IF Deep THEN 40 ELSE 4 IN {s[1 + ((i * Len(s)) \div n)] : i \in 0..(MinOf(n, Len(s)) - 1)}
Varied(ws) ==
  LET n == Len(ws) IN
  {Line(ws)}
  \cup {Line([ws EXCEPT ![i] = v]) : i \in 1..n, v \in WordsFor(n)}
  \cup {Line(SubSeq(ws, 1, i - 1) \o SubSeq(ws, i + 1, n)) : i \in 1..n}
  \cup {Line(SubSeq(ws, 1, i) \o SubSeq(ws, i, n)) : i \in 1..n}
  \cup {Line(SubSeq(ws, 1, i)) : i \in 0..n}
  \cup {Line(Append(ws, v)) : v \in WordsFor(n)}
  \cup {Line(<<v>> \o ws) : v \in NumWords}
  \cup {<<SP, 9>> \o Join(ws, <<NL, SP>>) \o <<9>>, Join(ws, <<9>>), Join(ws, <<>>), Join(ws, <<13>>)}
Texts(ty) == UNION {Varied(WordCut(TextOf(ty, x), 1, FALSE, <<>>, <<>>)) : x \in Thin(Bases(ty))}

TInit == rt \in Types \ {41} /\ rc = 1 /\ rd = <<>> /\ phase = 0 /\ txt = <<>>
TNext == phase = 0 /\ phase' = 1 /\ txt' \in Texts(rt) /\ UNCHANGED <<rt, rc, rd>>
TSpec == TInit /\ [][TNext]_vars2

R == ReadText(txt, rt, rc)
Taken == R.k \in {"yes", "maybe"}
(* what a text denotes is data a message could carry *)
Carried == Taken => Len(R.out) <= MaxRdata /\ ParserData(R.out, rt, rc)
(* printing it and reading that gives it again, if nothing is missing *)
Settles == Taken /\ (rt = 38 => CompleteFrom(Fields(rt), R.out, 0)) => LET p == RdataPrint(<<>>, R.out, rt, rc) IN
             p.ok /\ ~p.any => LET r2 == ReadText(p.out, rt, rc) IN r2.k \in {"yes", "maybe"} /\ r2.out = R.out
(* blanks in front or at the end do not count *)
Blanks == R.k # "any" => LET a == ReadText(<<SP, 9>> \o txt, rt, rc)  z == ReadText(txt \o <<9, SP>>, rt, rc) IN
            /\ Known(rt) => a.k = R.k /\ (Taken => a.out = R.out)
            /\ (R.k = "no" \/ z.k = "any" \/ (z.k \in {"yes", "maybe"} /\ z.out = R.out)) /\ (R.k = "no" => z.k \in {"no", "any"})
=============================================================================
