------------------------------ MODULE ArgEvents ------------------------------
EXTENDS ArgUsage
LOCAL Programs == <<S("prog"), S("my-prog"), S("d9")>>
LOCAL Same(spec, seen) == spec = ANYTEXT \/ seen = spec
ArgsRun(a) ==
  LET fl == a[1]
      t == TLCEval([i \in 1..a[7] |-> Entry(a[7 + i])])
      ws == SubSeq(a, 8 + a[7], Len(a))
      cfg == [close |-> Bit(fl, 1), toggle |-> Bit(fl, 2), multi |-> Bit(fl, 4), after |-> Bit(fl, 8), env |-> Bit(fl, 16),
              files |-> (S("F") :> a[3]) @@ (S("E") :> a[4])]
  IN [t |-> t, ws |-> ws, m |-> TLCEval(ProcessArgs(t, cfg, a[5], ws))]
MatchArgs(a, r) ==
  LET x == ArgsRun(a)  t == x.t  m == x.m
      room == U16(a[6], 0)  wide == U16(a[6], 2)
      first(P(_)) == SelectInSeq(t, P)
  IN
  /\ r.ret \in {0, 0 - 1}
  /\ r.prog = Programs[(a[2] % 3) + 1]
  /\ r.same = 1
  /\ room > 0 => r.cret = 0 /\ r.copy = CopiedArgs(x.ws, room)
  /\ CASE m.st = "fail" -> r.ret = 0 - 1 /\ ((\A i \in 1..Len(t) : t[i].type # ArgText \/ t[i].array) => r.kept = 0)
       [] m.st = "any" -> TRUE
       [] OTHER ->
          /\ r.ret = 0
          /\ r.kept <= m.lost
          /\ r.none = 0
          /\ \A i \in 1..Len(t) : ~Separates(t[i].letter) =>
               /\ r.used[i] = IF m.used[i] THEN 1 ELSE 0
               /\ LET k == first(LAMBDA e : e.letter = t[i].letter) IN r.short[i] = IF m.used[k] THEN 1 ELSE 0
               /\ t[i].named => LET k == first(LAMBDA e : e.named /\ e.name = t[i].name) IN r.long[i] = IF m.used[k] THEN 1 ELSE 0
               /\ Len(r.vals[i]) = Len(m.vals[i])
               /\ \A k \in 1..Len(m.vals[i]) : Same(m.vals[i][k], r.vals[i][k])
               /\ LET s == ShownEntry(t[i], m.vals[i]) IN
                  IF s = ANYTEXT \/ Len(s) < wide THEN Same(s, r.strs[i]) ELSE Len(r.strs[i]) < wide /\ (t[i].array \/ IsPrefixOf(r.strs[i], s))
MatchUsage(a, r) ==
  LET t == TLCEval([i \in 1..(Len(a) - 3) |-> UsageEntry(a[3 + i], a[3])]) IN r.ret = 0 /\ Same(AskedUsage(t, S("prog"), a[1], a[2]), r.text)
(* settings, kind of usage on errors, kind on request, exit code, label, version, number of entries, entries, words *)
MatchRun(a, r) ==
  LET t == TLCEval([i \in 1..a[7] |-> UsageEntry(a[7 + i], a[5])])
      ws == SubSeq(a, 8 + a[7], Len(a))
      cfg == [close |-> Bit(a[1], 1), toggle |-> Bit(a[1], 2), multi |-> Bit(a[1], 4), after |-> FALSE, env |-> FALSE, files |-> <<>>]
      x == RunByHand(t, cfg, Fresh(t), ws)
      m == x.m
      usage(kind) == UsageText(t, S("prog"), kind)
      ends(text) == r.code = 0 /\ Same(text, r.text)
      refused == r.code = a[4]
  IN IF ~WellFormed(t) THEN refused
     ELSE IF OddTable(t) THEN TRUE
     ELSE CASE x.wish = "odd" -> TRUE
            [] x.wish = "usage" -> ends(usage(a[3]))
            [] x.wish = "short" -> ends(usage(USESHORT))
            [] x.wish = "long" -> ends(usage(USELONG))
            [] x.wish = "all" -> ends(usage(USEALL))
            [] x.wish = "help" -> r.code = 0
            [] x.wish = "version" -> ends(S("prog: ") \o (IF a[6] = <<>> THEN S("no version information is available.") ELSE a[6]) \o <<NL>>)
            [] x.wish = "display" -> r.code = 0 /\ ShowsValues(t, m.vals, r.text)
            [] OTHER -> IF m.st = "any" THEN TRUE
                        ELSE IF m.st = "go" /\ Complete(t, m) THEN r.code = 200 /\ r.text = <<>>
                        ELSE refused /\ LET u == usage(a[2]) IN u = ANYTEXT \/ (IsSuffixOf(u, r.text) /\ Len(r.text) > Len(u))
MatchSettings(a, r) ==
  LET g == [close |-> a[1], toggle |-> a[2], env |-> a[3], after |-> a[4], error |-> a[5], multi |-> a[6], usage |-> a[7]]
      x == SettingsFrom(g, a[8])
  IN r.ret = 0 /\ r.set = <<x.close, x.toggle, x.env, x.after, x.error, x.multi, x.usage>>
(* as documented: values may be attached, a second -- is a word, the environment comes first, repetition is allowed, long usage, refusals end the program *)
Defaults == <<1, 0, 1, 0, 1, USELONG, 1, 0>>
LOCAL TypeSizes == <<1, 0, 1, 1, 8, 2, 2, 4, 4, 8, 8, 4, 8, 4, 4, 4, 4, 8, 8, 4, 4, 4>>
MatchTypeInfo(a, r) ==
  /\ r.both = 1
  /\ IF (a[1] % 64) \in 1..22 THEN r.known = 1 /\ TypeSizes[a[1] % 64] \in {0, r.size} ELSE r.known = 0 /\ r.size = 0
ArgMatch(e) ==
  LET a == e.a
      r == e.r
  IN
  CASE e.op = "args" -> MatchArgs(a, r)
    [] e.op = "ausage" -> MatchUsage(a, r)
    [] e.op = "arun" -> MatchRun(a, r)
    [] e.op = "asetting" -> MatchSettings(a, r)
    [] e.op = "adefault" -> r.set = Defaults
    [] e.op = "atype" -> MatchTypeInfo(a, r)
=============================================================================
