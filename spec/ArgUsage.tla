------------------------------- MODULE ArgUsage -------------------------------
(* What the argument processor tells people: the usage texts, laid out in
   columns; the program run by hand, which ends the process when asked for help
   or when the line is refused; and the settings read from GLOBAL_ARGV.       *)
EXTENDS Args

LOCAL Wide == 79  LOCAL NameColumn == 18  LOCAL NoteColumn == 34
LOCAL Spaces(n) == [i \in 1..n |-> 32]
LOCAL MARGIN == Spaces(7)
(* an entry with the label of its value and the note on it *)
UsageEntry(e, label) == Entry(e) @@ [label |-> IF Bit(e[3], 16) THEN label ELSE NOTEXT, note |-> IF Bit(e[3], 32) THEN label ELSE NOTEXT]
LOCAL Listed(t) == SelectSeq(t, LAMBDA e : ~Separates(e.letter))
LOCAL Placed(e) == e.letter \in {MAND, MAYBE}
LOCAL ValueLabel(e) == IF e.label # NOTEXT THEN e.label ELSE IF e.type \in {ArgBoolArg, ArgBoolIntArg} THEN S("yes|no") ELSE S("??")

(* ------------------------- the short form --------------------------------- *)
(* lines of at most Wide columns; p: text so far and the column it ends in *)
LOCAL Write(p, s) == [text |-> p.text \o s, col |-> p.col + Len(s)]
LOCAL NextLine(p, s) == [text |-> p.text \o <<NL>> \o MARGIN \o s, col |-> 7 + Len(s)]
(* a piece that begins with a space loses it at the start of a line *)
LOCAL Fit(p, s) == IF p.col + Len(s) > Wide THEN NextLine(p, IF s[1] = 32 THEN Tail(s) ELSE s) ELSE Write(p, s)
LOCAL FlagGroup(p, letters) ==
  IF letters = <<>> THEN p
  ELSE LET opened == IF p.col + 3 > Wide - 2 THEN NextLine(p, S("[-")) ELSE Write(p, S(" [-"))
           each == FoldLeft(LAMBDA q, c : Write(IF q.col + 1 > Wide - 1 THEN NextLine(Write(q, S("]")), S("[-")) ELSE q, <<c>>), opened, letters)
       IN Write(each, S("]"))
LOCAL ValuePiece(p, e) ==
  LET v == ValueLabel(e) IN
  CASE e.letter = MAND -> Fit(p, <<32>> \o v)
    [] e.letter = MAYBE -> Fit(p, S(" [") \o v \o S("]"))
    [] OTHER -> Fit(Fit(p, S(" [-") \o <<e.letter>>), <<32>> \o v \o S("]"))
ShortUsage(t, prog) ==
  LET l == Listed(t)
      flags == SelectSeq(l, LAMBDA e : ~TakesValue(e.type) /\ e.letter # 0)
      rest == SelectSeq(l, LAMBDA e : TakesValue(e.type))
      p == FlagGroup(Write([text |-> <<>>, col |-> 0], S("Usage: ") \o prog), [i \in 1..Len(flags) |-> flags[i].letter])
  IN IF \E i \in 1..Len(l) : (l[i].letter = 0 /\ TakesValue(l[i].type)) \/ (Placed(l[i]) /\ ~TakesValue(l[i].type)) THEN ANYTEXT
     ELSE FoldLeft(ValuePiece, p, rest).text \o <<NL>>

(* ------------------------- the long form ---------------------------------- *)
(* text cut to end before a column; -1 once there is no room even for nothing *)
LOCAL CutAt(p, s, end) == IF p.col < 0 \/ end < p.col THEN [p EXCEPT !.col = 0 - 1] ELSE Write(p, SubSeq(s, 1, MinOf(end - p.col, Len(s))))
LOCAL PadTo(p, c) == IF p.col < 0 \/ p.col >= c THEN p ELSE Write(p, Spaces(c - p.col))
LOCAL Then(p, s) == IF p.col < 0 THEN p ELSE Write(p, s)
LOCAL LongValue(p, e, end) ==
  IF ~TakesValue(e.type) THEN p
  ELSE IF e.type \in {ArgBoolArg, ArgBoolIntArg} THEN Then(p, S("yes|no"))
  ELSE CutAt(p, ValueLabel(e), end)
(* [-x value], [value] *)
LOCAL Option(e) ==
  LET p0 == [text |-> <<>>, col |-> 0] IN
  Then(LongValue(IF e.letter = MAYBE THEN Then(p0, S("[")) ELSE Then(p0, S("[-") \o <<e.letter>> \o (IF TakesValue(e.type) THEN <<32>> ELSE <<>>)), e, NameColumn - 1), S("]"))
LongLine(e) ==
  LET p0 == [text |-> <<>>, col |-> 0]
      head == CASE e.letter = 0 -> Then(p0, S("["))
                [] e.letter = MAND -> PadTo(LongValue(p0, e, NoteColumn), NameColumn)
                [] OTHER -> PadTo(Option(e), NameColumn)
      named == IF ~e.named THEN head
               ELSE CutAt(Then(head, (IF e.letter = 0 THEN <<>> ELSE S("or ")) \o S("--")), e.name, NoteColumn - 1)
      closed == IF e.letter # 0 THEN named
                ELSE Then(LongValue(IF TakesValue(e.type) THEN Then(named, <<32>>) ELSE named, e, NoteColumn - 1), S("]"))
      noted == IF e.note = NOTEXT THEN closed ELSE CutAt(PadTo(closed, NoteColumn), e.note, Wide)
  IN IF noted.col < 0 THEN ANYTEXT ELSE noted.text \o <<NL>>
LongUsage(t, prog) ==
  LET l == Listed(t)  lines == TLCEval([i \in 1..Len(l) |-> LongLine(l[i])]) IN
  IF \E i \in 1..Len(l) : lines[i] = ANYTEXT THEN ANYTEXT ELSE S("Usage: ") \o prog \o <<NL>> \o ConcatMap(LAMBDA x : x, lines)
LOCAL Hints ==
  <<NL>> \o ConcatMap(LAMBDA h : S("Use '--") \o h \o <<NL>>,
    << S("usage' for default usage information."), S("usage-short' for short usage information."), S("usage-long' for long usage information."),
       S("usage-all' for all usage information."), S("help' to display the help message."), S("version' to display the version message."),
       S("argv-display' to display the options and their values.") >>)

(* the kinds of usage text *)
USESHORT == 1  USELONG == 2  USESEE == 4  USEREMIND == 5  USEALL == 6
UsageText(t, prog, kind) ==
  LET s == ShortUsage(t, prog)  l == LongUsage(t, prog) IN
  CASE kind = USESEE -> MARGIN \o S("Use the '--usage' argument for assistance.") \o <<NL>>
    [] kind = USESHORT -> s
    [] kind = USEREMIND -> IF s = ANYTEXT THEN s ELSE s \o MARGIN \o S("Use the '--usage' argument for more assistance.") \o <<NL>>
    [] kind = USELONG -> l
    [] kind = USEALL -> IF l = ANYTEXT THEN l ELSE l \o Hints
    [] OTHER -> <<>>
(* what a program asking for one kind gets, where the settings name another as the default *)
AskedUsage(t, prog, which, default) == UsageText(t, prog, IF which \in {USESHORT, USELONG, USEALL} THEN which ELSE default)

IsPrefixOf(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EqualsIn(w) == SelectInSeq(w, LAMBDA c : c = 61)
(* --------------------- the program run by hand ---------------------------- *)
(* the word that makes it print something and end: which kind, or "no" *)
LOCAL Asks(t, cfg, m, w) ==
  LET x == IF cfg.close /\ EqualsIn(w) # 0 THEN SubSeq(w, 1, EqualsIn(w) - 1) ELSE w
      name == SubSeq(x, 3, Len(x))
      is(s) == IsPrefixOf(name, s)
      odd == \E k \in 2..Len(x) : x[k] = 63 /\ x[1] = 45
  IN IF m.last THEN "no"
     ELSE IF IsPrefixOf(<<45, 45>>, x) THEN
        (IF name = <<>> \/ (\E i \in 1..Len(t) : t[i].named /\ IsPrefixOf(name, t[i].name)) \/ is(S("argv-file")) THEN "no"
         ELSE CASE is(S("usage")) -> "usage" [] is(S("help")) -> "help"
                [] is(S("usage-short")) -> "short" [] is(S("usage-long")) -> "long" [] is(S("usage-all")) -> "all"
                [] is(S("version")) -> "version" [] is(S("argv-display")) -> "display" [] OTHER -> "no")
     ELSE IF x = <<45, 63>> /\ SelectInSeq(t, LAMBDA e : e.letter = 63) = 0 THEN "usage"
     ELSE IF odd THEN "odd" ELSE "no"
RECURSIVE RunByHand(_, _, _, _)
(* ends either with a wish or at the end of the line *)
RunByHand(t, cfg, m, ws) ==
  IF ws = <<>> THEN [m |-> m, wish |-> "no"]
  ELSE LET k == Asks(t, cfg, m, ws[1]) IN
       IF m.st # "go" THEN [m |-> m, wish |-> IF \E i \in 1..Len(ws) : 63 \in Range(ws[i]) \/ IsPrefixOf(<<45, 45>>, ws[i]) THEN "odd" ELSE "no"]
       ELSE IF k # "no" THEN [m |-> m, wish |-> k]
       ELSE RunByHand(t, cfg, TLCEval(TakeWord(t, cfg, m, ws[1], 0)), Tail(ws))

(* a line that shows a value: whose, of what type, and what it holds.  The space before the type is not counted in the columns. *)
LOCAL TypeNames == << S("flag"), S("negative flag"), S("flag with arg"), S("character"), S("string"), S("short integer"), S("unsigned short integer"),
  S("integer"), S("unsigned integer"), S("long integer"), S("unsigned long"), S("floating point"), S("double floating point"), S("binary"), S("octal"),
  S("hexadecimal"), S("increment"), S("long size"), S("unsigned long size"), S("integer boolean"), S("integer boolean"), S("integer boolean") >>
LOCAL ShownHead(e) ==
  LET p0 == [text |-> <<>>, col |-> 0]
      who == CASE e.letter = 0 -> IF e.named THEN CutAt(Then(p0, S("--")), e.name, NoteColumn - 1) ELSE p0
               [] e.letter = MAND -> LongValue(p0, e, NoteColumn)
               [] OTHER -> Option(e)
      at == PadTo(who, NameColumn)
      what == CutAt(IF at.col < 0 THEN at ELSE [at EXCEPT !.text = @ \o <<32>>], TypeNames[e.type], NoteColumn - 1)
  IN PadTo(IF e.array THEN Then(what, S(" array")) ELSE what, NoteColumn)
LOCAL Shown(e, vs) ==
  LET each == [i \in 1..Len(vs) |-> ShownValue(e.type, vs[i])] IN
  IF \E i \in 1..Len(vs) : each[i] = ANYTEXT \/ Len(each[i]) > 200 THEN ANYTEXT
  ELSE IF e.array /\ vs = <<>> THEN S("no entries")
  ELSE IF vs = <<>> THEN S("(null)")
  ELSE Join(each, <<44>>)
LinesOf(text) ==
  LET f == FoldLeft(LAMBDA acc, c : IF c = NL THEN [out |-> Append(acc.out, acc.cur), cur |-> <<>>] ELSE [acc EXCEPT !.cur = Append(@, c)],
                    [out |-> <<>>, cur |-> <<>>], text)
  IN IF f.cur = <<>> THEN f.out ELSE Append(f.out, f.cur)
IsSuffixOf(s, text) == Len(s) <= Len(text) /\ SubSeq(text, Len(text) - Len(s) + 1, Len(text)) = s
ShowsValues(t, vals, text) ==
  LET l == SelectSeq([i \in 1..Len(t) |-> i], LAMBDA i : ~Separates(t[i].letter))
      lines == LinesOf(text)
  IN /\ Len(lines) = Len(l)
     /\ \A k \in 1..Len(l) : LET s == Shown(t[l[k]], vals[l[k]])  h == ShownHead(t[l[k]]) IN
          /\ s = ANYTEXT \/ IsSuffixOf(s, lines[k])
          /\ h.col < 0 \/ IsPrefixOf(h.text, lines[k])
          /\ h.col < 0 \/ s = ANYTEXT \/ lines[k] = h.text \o s

(* ------------------- settings from the environment ------------------------ *)
LOCAL Off == {S("disable"), S("off"), S("no"), S("0")}
LOCAL On == {S("enable"), S("on"), S("yes"), S("1")}
LOCAL Kinds == [none |-> 0, short |-> 1, long |-> 2, see |-> 4, shortrem |-> 5, all |-> 6]
LOCAL KindOf(v) == CASE v = S("none") -> 0 [] v = S("short") -> 1 [] v = S("long") -> 2 [] v = S("see") -> 4 [] v = S("shortrem") -> 5 [] v = S("all") -> 6 [] OTHER -> 0 - 1
(* one setting; words that are none change nothing *)
LOCAL Setting(g, w) ==
  LET p == SelectInSeq(w, LAMBDA c : c = 61)
      k == SubSeq(w, 1, p)
      v == SubSeq(w, p + 1, Len(w))
      flag(old) == IF v \in Off THEN 0 ELSE IF v \in On THEN 1 ELSE old
  IN CASE k = S("close=") -> [g EXCEPT !.close = flag(@)]
       [] k = S("lasttog=") -> [g EXCEPT !.toggle = flag(@)]
       [] k = S("env=") -> (CASE v = S("none") -> [g EXCEPT !.env = 0, !.after = 0]
                              [] v = S("before") -> [g EXCEPT !.env = 1, !.after = 0]
                              [] v = S("after") -> [g EXCEPT !.env = 1, !.after = 1]
                              [] OTHER -> g)
       [] k = S("error=") -> (IF KindOf(v) >= 0 THEN [g EXCEPT !.error = KindOf(v)] ELSE g)
       [] k = S("multi=") -> (CASE v = S("reject") -> [g EXCEPT !.multi = 0] [] v = S("accept") -> [g EXCEPT !.multi = 1] [] OTHER -> g)
       [] k = S("usage=") -> (IF KindOf(v) \in {1, 2, 5, 6} THEN [g EXCEPT !.usage = KindOf(v)] ELSE g)
       [] OTHER -> g
SettingsFrom(g, text) == FoldLeft(Setting, g, SplitBy(text, LAMBDA c : c \in {32, 9, 44, 58}))
=============================================================================
