------------------------------ MODULE Message ------------------------------
(* Messages: what a byte string parses into, how records group into RRsets,
   the EDNS state, and the text of it all.                                   *)
EXTENDS Rdata

HeaderLen == 12
Question == 1           \* section numbers are 1..4
TOpt == 41

(* ------------------------------ one record -------------------------------- *)
(* at position p, in section sec: [ok, next, rr] *)
RrBad == [ok |-> FALSE, next |-> 0, rr |-> <<>>]
ParseRr(b, p, sec) ==
  LET u == Unpack(b, p)  q == SkipFrom(b, p) IN
  IF u.res # "ok" THEN RrBad
  ELSE IF sec = Question THEN
    IF q + 4 > Len(b) THEN RrBad
    ELSE [ok |-> TRUE, next |-> q + 4,
          rr |-> [n |-> u.out, t |-> U16(b, q), c |-> U16(b, q + 2), ttl |-> <<0, 0>>, d |-> <<>>]]
  ELSE IF q + 10 > Len(b) \/ q + 10 + U16(b, q + 8) > Len(b) THEN RrBad
  ELSE LET d == ParseRdata(b, q + 10, U16(b, q + 8), U16(b, q), U16(b, q + 2)) IN
       IF ~d.ok THEN RrBad
       ELSE [ok |-> TRUE, next |-> q + 10 + U16(b, q + 8),
             rr |-> [n |-> u.out, t |-> U16(b, q), c |-> U16(b, q + 2), ttl |-> U32(b, q + 4), d |-> <<d.out>>]]

(* ----------------------------- parser machine ----------------------------- *)
(* State: position, section, records taken of it, sections so far, EDNS.  The
   machine is stepped exhaustively in MessageMachine.tla and run to its end by
   ParseMessage.                                                             *)
EdnsOf(rr) == [v |-> rr.ttl[1] % 256, f |-> rr.ttl[2], s |-> rr.c, o |-> rr.d]
MsgInit(b) ==
  IF Len(b) < HeaderLen THEN [st |-> "bad"]
  ELSE [st |-> "run", pos |-> HeaderLen, sec |-> 1, k |-> 0, rrs |-> <<<<>>, <<>>, <<>>, <<>>>>, edns |-> <<>>,
        rcode |-> U16(b, 2) % 16]
Count(b, sec) == U16(b, 2 + 2 * sec)
MsgStep(b, s) ==
  IF s.sec > 4 THEN [s EXCEPT !.st = "ok"]
  ELSE IF s.k = Count(b, s.sec) THEN [s EXCEPT !.sec = s.sec + 1, !.k = 0]
  ELSE IF s.pos = Len(b) THEN [s EXCEPT !.st = "ok"]       \* ends on a record boundary
  ELSE LET r == ParseRr(b, s.pos, s.sec) IN
       IF ~r.ok THEN [st |-> "bad"]
       ELSE IF r.rr.t = TOpt /\ s.sec # Question /\ s.edns = <<>> THEN
         [s EXCEPT !.pos = r.next, !.k = s.k + 1, !.edns = <<EdnsOf(r.rr)>>,
                   !.rcode = s.rcode + 16 * (r.rr.ttl[1] \div 256)]
       ELSE [s EXCEPT !.pos = r.next, !.k = s.k + 1, !.rrs[s.sec] = Append(s.rrs[s.sec], r.rr)]
RECURSIVE MsgRun(_, _)
MsgRun(b, s) == IF s.st # "run" THEN s ELSE MsgRun(b, MsgStep(b, s))

(* ------------------------------- RRsets ----------------------------------- *)
SameSet(rr, set) == rr.t = set.t /\ rr.c = set.c /\ Len(rr.n) = Len(set.n) /\ Lower(rr.n) = Lower(set.n)
AddTo(sets, rr) ==
  LET ks == {k \in 1..Len(sets) : SameSet(rr, sets[k])} IN
  IF ks = {} THEN Append(sets, rr)
  ELSE LET k == CHOOSE k \in ks : TRUE IN
       [sets EXCEPT ![k].d = Append(@, rr.d[1]), ![k].ttl = IF U32Less(rr.ttl, @) THEN rr.ttl ELSE @]
Group(rrs, sec) == IF sec = Question THEN rrs ELSE FoldLeft(AddTo, <<>>, rrs)

Msg(b) ==
  LET s == MsgRun(b, MsgInit(b)) IN
  IF s.st = "bad" THEN [ok |-> FALSE]
  ELSE [ok |-> TRUE, id |-> U16(b, 0), flags |-> U16(b, 2), rcode |-> s.rcode, edns |-> s.edns, rrs |-> s.rrs,
        sets |-> [i \in 1..4 |-> Group(s.rrs[i], i)]]

(* ------------------------------- rendering -------------------------------- *)
(* One record's line as text still to be judged: rdata may be erroneous. *)
RrText(rr, sec) ==
  LET kind == <<SP>> \o ClassText(rr.c) \o <<SP>> \o TypeText(rr.t) IN
  IF sec = Question THEN POk(<<59>> \o NameText(rr.n) \o kind, 0)
  ELSE RdataPrint(NameText(rr.n) \o <<SP>> \o Dec32(rr.ttl) \o kind \o <<SP>>, rr.d[1], rr.t, rr.c)

(* Lines still to be judged: [k: "is" | "bad" | "any", t] *)
Line(t) == [k |-> "is", t |-> t]
LinesOf(p) ==      \* of a text that may hold line breaks and end in a marker
  IF p.any THEN <<[k |-> "any", t |-> <<>>]>>
  ELSE LET ls == Split(p.out, NL) IN
       [i \in 1..Len(ls) |-> IF i = Len(ls) /\ ~p.ok THEN [k |-> "bad", t |-> ls[i]] ELSE Line(ls[i])]
SecLines(rrs, sec) == ConcatMap(LAMBDA rr : LinesOf(RrText(rr, sec)), rrs)
LineOk(l, t) == CASE l.k = "is" -> t = l.t
                  [] l.k = "bad" -> IsPrefix(l.t, t) /\ HasMarker(t)
                  [] OTHER -> TRUE
TextIs(lines, t) ==      \* the lines, each ended
  LET ts == Split(t, NL) IN
  /\ Len(ts) = Len(lines) + 1
  /\ ts[Len(ts)] = <<>>
  /\ \A i \in 1..Len(lines) : LineOk(lines[i], ts[i])

SetLines(set, sec) ==
  IF sec = Question THEN LinesOf(RrText(set, sec))
  ELSE SecLines([i \in 1..Len(set.d) |-> [set EXCEPT !.d = <<set.d[i]>>]], sec)

Bit16(x, k) == (x \div (2^k)) % 2 = 1
FlagText(flags) ==
  LET F(k, s) == IF Bit16(flags, k) THEN S(s) ELSE <<>> IN
  F(15, " qr") \o F(10, " aa") \o F(9, " tc") \o F(8, " rd") \o F(7, " ra") \o F(5, " ad") \o F(4, " cd")
OptLines(d) == LET r == OptionsText(d, 0, <<>>) IN
  IF d = <<>> THEN <<>> ELSE [i \in 1..Len(LinesOf(r)) |-> [LinesOf(r)[i] EXCEPT !.t = S("; ") \o @]]
EdnsLines(m) ==
  IF m.edns = <<>> THEN <<>>
  ELSE LET e == m.edns[1] IN
    <<Line(<<>>), Line(S(";; OPT PSEUDOSECTION:")),
      Line(S("; EDNS: version: ") \o Dec(e.v) \o S(", flags:") \o (IF Bit16(e.f, 15) THEN S(" do") ELSE <<>>) \o S("; udp: ") \o Dec(e.s))>>
    \o ConcatMap(OptLines, e.o)
MessageLines(m) ==
  LET op == (m.flags \div 2048) % 16 IN
  <<Line(S(";; ->>HEADER<<- opcode: ") \o (IF op \in DOMAIN OpcodeName THEN OpcodeName[op] ELSE Dec(op))
         \o S(", rcode: ") \o (IF m.rcode \in DOMAIN RcodeName THEN RcodeName[m.rcode] ELSE Dec(m.rcode))
         \o S(", id: ") \o Dec(m.id)),
    Line(S(";; flags:") \o FlagText(m.flags) \o S("; QUERY: ") \o Dec(Len(m.rrs[1])) \o S(", ANSWER: ") \o Dec(Len(m.rrs[2]))
         \o S(", AUTHORITY: ") \o Dec(Len(m.rrs[3])) \o S(", ADDITIONAL: ") \o Dec(Len(m.rrs[4])))>>
  \o (IF m.edns = <<>> THEN <<Line(<<>>)>> ELSE EdnsLines(m))
  \o <<Line(S(";; QUESTION SECTION:"))>> \o SecLines(m.rrs[1], 1)
  \o <<Line(<<>>), Line(S(";; ANSWER SECTION:"))>> \o SecLines(m.rrs[2], 2)
  \o <<Line(<<>>), Line(S(";; AUTHORITY SECTION:"))>> \o SecLines(m.rrs[3], 3)
  \o <<Line(<<>>), Line(S(";; ADDITIONAL SECTION:"))>> \o SecLines(m.rrs[4], 4)

(* --------------------------- RRset operations ----------------------------- *)
ItemLess(x, y) == Len(x) < Len(y) \/ (Len(x) = Len(y) /\ LexLess(x, y))
Ordered(ds) == \A i \in 1..(Len(ds) - 1) : ~ItemLess(ds[i + 1], ds[i])
Occurs(x, ds) == Cardinality({i \in 1..Len(ds) : ds[i] = x})
Permutes(ds, es) == Len(ds) = Len(es) /\ \A i \in 1..Len(ds) : Occurs(ds[i], ds) = Occurs(ds[i], es)
FoldRrset(s) == [s EXCEPT !.n = Lower(@), !.d = [i \in 1..Len(@) |-> FoldRdata(@[i], s.t, s.c)]]
=============================================================================
