---------------------------- MODULE ToolEvents ----------------------------
(* The command-line tools: what each prints and how it ends, from what it was given. *)
EXTENDS MessageEvents

Failed(st) == st \in 1..65                  \* by its own decision, and not because it was stopped
Quiet(r) == Failed(r.st) /\ r.out = <<>>
IsHexText(t) == Len(t) > 0 /\ Len(t) % 2 = 0 /\ \A i \in 1..Len(t) : IsHexDigit(t[i])
Answer == 2

(* one message in a file: its text and an empty line *)
MatchFile(a, r) ==
  IF a[2] # 0 \/ Len(a[1]) > 4096 THEN Quiet(r)
  ELSE LET m == Msg(a[1]) IN
       IF ~m.ok THEN Quiet(r)
       ELSE \/ r.st = 0 /\ TextIs(MessageLines(m) \o <<Line(<<>>)>>, r.out)
            \/ Len(a[1]) = 4096 /\ Quiet(r)
MatchBad(a, r) == Failed(r.st) \/ (a[3] = 2 /\ IsHexText(a[2]) /\ r.st = 0)
MatchPrint(a, r) ==
  LET m == Msg(a[1]) IN IF ~m.ok THEN Quiet(r) ELSE r.st = 0 /\ TextIs(MessageLines(m), r.out)
(* the sets after the question, in order, each on a line of its own *)
MatchToolSer(a, r) ==
  LET m == Msg(a[1]) IN
  /\ r.outsz = 0 /\ r.bad = 0
  /\ IF ~m.ok THEN Failed(r.st) ELSE r.st = 0 /\ r.sets = m.sets[2] \o m.sets[3] \o m.sets[4]
MatchSet(which, s, r) ==
  IF which = 2 THEN r.st = 0 /\ TextIs(SetLines(s, Answer), r.out)
  ELSE IF \A i \in 1..Len(s.d) : ParserData(s.d[i], s.t, s.c) THEN r.st = 0 /\ TextIs(SetLines(FoldRrset(s), Answer), r.out)
  ELSE r.st \in 0..65
MatchToolSet(a, r) == r.set = <<SetArg(a, 3)>> /\ MatchSet(a[1], r.set[1], r)
MatchToolRaw(a, r) == IF r.set = <<>> THEN Quiet(r) ELSE MatchSet(a[1], r.set[1], r)

(* ------------------------------- captures ------------------------------- *)
Is4(p) == Len(p) >= 14 /\ p[13] = 8 /\ p[14] = 0
Passes(f, p) ==
  CASE f = 0 -> TRUE
    [] f = 1 -> Is4(p)
    [] OTHER -> Len(p) >= 14 /\ ((Is4(p) /\ Len(p) >= 24 /\ p[24] = 17)
                  \/ (p[13] = 134 /\ p[14] = 221 /\ Len(p) >= 21 /\ (p[21] = 17 \/ (p[21] = 44 /\ Len(p) >= 55 /\ p[55] = 17))))
(* the part of a packet that is a DNS message: octets, nothing, or unspecified *)
Payload(p) ==
  IF ~Is4(p) \/ Len(p) < 34 THEN [k |-> "none", d |-> <<>>]
  ELSE LET h == 4 * (p[15] % 16)
           n == MinOf(Len(p) - 14, p[17] * 256 + p[18])
       IN IF h < 20 THEN [k |-> "any", d |-> <<>>]
          ELSE IF n < h + 20 THEN [k |-> "none", d |-> <<>>]
          ELSE [k |-> "dns", d |-> SubSeq(p, 15 + h + 8, 14 + n)]
MatchPcap(a, r) ==
  IF a[1] \in 1..3 \/ a[2] = 2 THEN Quiet(r)
  ELSE
  LET whole == IF a[1] = 4 /\ Len(a) > 3 /\ a[Len(a)] # <<>> THEN Len(a) - 1 ELSE Len(a)
      seen == TLCEval(SelectSeq([i \in 1..(whole - 3) |-> i + 3], LAMBDA i : Passes(a[2], a[i])))
      part == TLCEval([k \in 1..Len(seen) |-> Payload(a[seen[k]])])
      msgs == TLCEval([k \in 1..Len(seen) |-> IF part[k].k = "dns" THEN Msg(part[k].d) ELSE [ok |-> FALSE]])
      good == SelectSeq([k \in 1..Len(seen) |-> k], LAMBDA k : msgs[k].ok)
      bad == SelectSeq([k \in 1..Len(seen) |-> k], LAMBDA k : part[k].k = "dns" /\ ~msgs[k].ok)
  IN
  /\ r.st = 0 \/ (a[1] = 4 /\ Failed(r.st))
  /\ r.st = 0 => r.count = Len(seen) /\ r.cdump = Len(r.kept)
  /\ (\A k \in 1..Len(part) : part[k].k # "any") =>
       /\ TextIs(ConcatMap(LAMBDA k : MessageLines(msgs[k]), good), r.out)
       /\ r.kept = [j \in 1..Len(bad) |-> LET i == seen[bad[j]] IN <<999 + i, i - 1, Len(a[i]) + a[3], a[i]>>]

RECURSIVE HasSub(_, _)
HasSub(t, s) == Len(t) >= Len(s) /\ (IsPrefix(s, t) \/ HasSub(Tail(t), s))
MatchVersion(a, r) ==
  /\ r.st = 0 /\ r.num = a[1] * 1000000 + a[2] * 1000 + a[3]
  /\ r.text = Dec(a[1]) \o S(".") \o Dec(a[2]) \o S(".") \o Dec(a[3])
  /\ HasSub(r.out, Dec(r.num)) /\ HasSub(r.out, r.text)

ToolMatch(e) ==
  LET a == e.a
      r == e.r
  IN
  CASE e.op = "tfile" -> MatchFile(a, r)
    [] e.op = "tbad" -> MatchBad(a, r)
    [] e.op = "tprint" -> MatchPrint(a, r)
    [] e.op = "tser" -> MatchToolSer(a, r)
    [] e.op = "tset" -> MatchToolSet(a, r)
    [] e.op = "traw" -> MatchToolRaw(a, r)
    [] e.op = "tpcap" -> MatchPcap(a, r)
    [] e.op = "tver" -> MatchVersion(a, r)
    [] OTHER -> MessageMatch(e)
=============================================================================
