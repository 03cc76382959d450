--------------------------- MODULE MessageEvents ---------------------------
(* What each message, record-data and RRset function may do, as events. *)
EXTENDS Message, NameEvents

Dump(m) == [res |-> 0, id |-> m.id, flags |-> m.flags, rcode |-> m.rcode, edns |-> m.edns, rrs |-> m.rrs, sets |-> m.sets]
(* the arguments of an RRset operation *)
SetArg(a, k) == [n |-> a[k], t |-> a[k + 1], c |-> a[k + 2], ttl |-> <<a[k + 3], a[k + 4]>>, d |-> SubSeq(a, k + 5, Len(a))]

(* P05: the records of each section exactly as encoded *)
MatchMsg(a, r) ==
  LET m == Msg(a[1]) IN
  IF ~m.ok THEN Refused(r)
  ELSE r.res = 0 /\ r.id = m.id /\ r.flags = m.flags /\ r.rcode = m.rcode /\ r.rrs = m.rrs
(* P06: the RRsets are the grouping of the records *)
MatchGroup(r) == r.res = 0 => \A i \in 1..4 : r.sets[i] = Group(r.rrs[i], i)
(* P07: the data of a message's records, and whether they are acceptable at all *)
MatchRdata(a, r) ==
  LET m == Msg(a[1]) IN
  IF ~m.ok THEN Refused(r)
  ELSE r.res = 0 /\ \A i \in 1..4 : [k \in 1..Len(m.rrs[i]) |-> m.rrs[i][k].d] = [k \in 1..Len(r.rrs[i]) |-> r.rrs[i][k].d]
(* P11 *)
MatchEdns(a, r) ==
  LET m == Msg(a[1]) IN
  m.ok => /\ r.res = 0 /\ r.rcode = m.rcode /\ r.edns = m.edns
          /\ \A i \in 1..4 : Len(r.rrs[i]) = Len(m.rrs[i])
                /\ \A k \in 1..Len(m.rrs[i]) : m.rrs[i][k].t = TOpt => r.rrs[i][k] = m.rrs[i][k]

(* P12: the text follows from the parsed content, wherever that came from *)
MatchRender(r) ==
  r.res = 0 =>
    /\ r.same = 1
    /\ TextIs(MessageLines(r.m), r.text)
    /\ \A i \in 1..4 :
        /\ TextIs(SecLines(r.m.rrs[i], i), r.arr[i])
        /\ Len(r.rr[i]) = Len(r.m.rrs[i]) /\ \A k \in 1..Len(r.rr[i]) : TextIs(LinesOf(RrText(r.m.rrs[i][k], i)), r.rr[i][k])
        /\ Len(r.set[i]) = Len(r.m.sets[i]) /\ \A k \in 1..Len(r.set[i]) : TextIs(SetLines(r.m.sets[i][k], i), r.set[i][k])

(* P13 *)
MatchSer(a, r) ==
  LET s == SetArg(a, 1) IN
  /\ r.res = 0 /\ r.res2 = 0 /\ r.res3 = 0 /\ r.sz = r.sz2 /\ r.filled = 1
  /\ r.dres = 0 /\ r.out = s /\ r.took = 0 /\ r.kept = 0
MatchDeser(a, r) == Refused(r) \/ (r.res = 0 /\ IsPrefix(r.again, a[1]))
(* P14 *)
Folded(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : y[i] \in {x[i], LowerTab[x[i]]}
MatchFold(a, r) ==
  LET s == SetArg(a, 1) IN
  IF \A i \in 1..Len(s.d) : ParserData(s.d[i], s.t, s.c)
  THEN r = [res |-> 0, out |-> FoldRrset(s), res2 |-> 0, again |-> FoldRrset(s)]
  ELSE r.res \in 0..15
MatchFoldRd(a, r) ==
  IF ParserData(a[3], a[1], a[2]) THEN r = [res |-> 0, out |-> FoldRdata(a[3], a[1], a[2])]
  ELSE IF ~(a[1] \in FoldTypes /\ InClass(a[1], a[2])) THEN r = [res |-> 0, out |-> a[3]]
  ELSE r.res \in 0..15 /\ Folded(a[3], r.out)
(* P15 *)
MatchSort(a, r) ==
  LET s == SetArg(a, 1) IN
  /\ r.res = 0 /\ r.res2 = 0
  /\ Ordered(r.out.d) /\ Permutes(s.d, r.out.d)
  /\ [r.out EXCEPT !.d = s.d] = s
  /\ r.rev = r.out /\ r.again = r.out

(* P17 *)
Known1(tab, n) == IF n \in DOMAIN tab THEN <<tab[n]>> ELSE <<>>
ResText == TLCEval(MapSeq(S, <<"success", "failure", "invalid compression pointer", "invalid length octet", "invalid opcode",
  "invalid rcode", "len", "malloc", "name len", "name overflow", "out of bounds", "overflow", "parse error", "qdcount",
  "unknown opcode", "unknown rcode">>))
(* the version's number is made of the three parts of its text, and both are the header's *)
MatchVersionText(r) ==
  LET parts == Split(r.text[1], 46)  v == [i \in DOMAIN parts |-> DecValue(parts[i])] IN
  /\ Len(parts) = 3 /\ \A i \in 1..3 : parts[i] # <<>> /\ \A k \in DOMAIN parts[i] : parts[i][k] \in 48..57
  /\ r.number = v[1] * 1000000 + v[2] * 1000 + v[3]
  /\ r.htext = r.text /\ r.hnumber = r.number
MatchMnem(a, r) ==
  LET Zero(v) == IF v = -1 THEN 0 ELSE v IN
  /\ r.type = Zero(StrToType(a[1])) /\ r.class = Zero(StrToClass(a[1]))
  /\ r.rcode = (IF StrToRcode(a[1]) = -1 THEN <<>> ELSE <<StrToRcode(a[1])>>)

(* P20: the names of the lines, up to the first bad line *)
IsName(l) == l # <<>> /\ l[1] # SP /\ l[1] # 35
NameLines(t) ==
  LET all == TLCEval(SelectSeq(Split(t, NL), IsName))
      rs == TLCEval([i \in 1..Len(all) |-> IF 0 \in Range(all[i]) THEN Err("parse_error") ELSE StrToName(all[i], TRUE)])
      bad == {i \in 1..Len(all) : rs[i].res # "ok"}
      n == IF bad = {} THEN Len(all) ELSE (CHOOSE i \in bad : \A j \in bad : i <= j) - 1
  IN [names |-> [i \in 1..n |-> rs[i].out], ok |-> bad = {}]

MessageMatch(e) ==
  LET a == e.a
      r == e.r
  IN
  CASE e.op = "msg" -> MatchMsg(a, r)
    [] e.op = "mgroup" -> MatchGroup(r)
    [] e.op = "mrdata" -> MatchRdata(a, r)
    [] e.op = "medns" -> MatchEdns(a, r)
    [] e.op = "render" -> MatchRender(r)
    [] e.op = "ser" -> MatchSer(a, r)
    [] e.op = "deser" -> MatchDeser(a, r)
    [] e.op = "fold" -> MatchFold(a, r)
    [] e.op = "foldrd" -> MatchFoldRd(a, r)
    [] e.op = "sort" -> MatchSort(a, r)
    [] e.op = "rd2s" -> TextAgrees(r.text, RdataPrint(<<>>, a[3], a[1], a[2]))
    [] e.op = "code" -> r = [type |-> Known1(TypeName, a[1]), class |-> Known1(ClassName, a[1]),
                             rcode |-> Known1(RcodeName, a[1]), opcode |-> Known1(OpcodeName, a[1])]
    [] e.op = "restr" -> r = [text |-> IF a[1] \in 0..15 THEN <<ResText[a[1] + 1]>> ELSE <<>>]
    [] e.op = "mnem" -> MatchMnem(a, r)
    [] e.op = "version" -> MatchVersionText(r)
    [] e.op = "cmpset" -> r = [same |-> IF Lower(a[1]) = Lower(a[4]) /\ a[2] = a[5] /\ a[3] = a[6] THEN 1 ELSE 0, kept |-> 1]
    [] e.op = "generic" -> r.bad = 0
    [] e.op = "names" -> IF Len(a) > 1 /\ a[2] # 0 THEN r.res # 0 /\ r.names = <<>>
                         ELSE LET x == NameLines(a[1]) IN r.names = x.names /\ (r.res = 0) = x.ok
    [] OTHER -> NameMatch(e)
=============================================================================
