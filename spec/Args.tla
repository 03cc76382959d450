-------------------------------- MODULE Args --------------------------------
(* The command-line argument processor (libmy/argv.h).  A program describes its
   arguments by a table of entries; processing a command line either stores
   into the variables of the table exactly what the words say, or refuses.
   The processor is a machine that consumes words one at a time:
     vals[i]   what the variable of entry i holds, as texts (several for arrays)
     used[i]   whether entry i was given
     await     entries whose option was given and whose value has not come yet
               (0 for the name of a file of arguments)
     last      whether "--" has ended the options
     st        "go", "fail" once the line is refused, "any" where the
               documentation leaves the outcome open                          *)
EXTENDS Bytes

ArgBool == 1  ArgBoolNeg == 2  ArgBoolArg == 3  ArgChar == 4  ArgText == 5
ArgShort == 6  ArgUShort == 7  ArgInt == 8  ArgUInt == 9  ArgLong == 10  ArgULong == 11
ArgFloat == 12  ArgDouble == 13  ArgBin == 14  ArgOct == 15  ArgHex == 16  ArgIncr == 17
ArgSize == 18  ArgUSize == 19  ArgBoolInt == 20  ArgBoolIntNeg == 21  ArgBoolIntArg == 22
TakesValue(ty) == ty \notin {ArgBool, ArgBoolNeg, ArgIncr, ArgBoolInt, ArgBoolIntNeg}

LAST == 255  MAND == 254  MAYBE == 253  OR == 252  XOR == 251
Separates(c) == c \in {OR, XOR}

(* an entry as the harness builds it: letter, type, flags, long name *)
Bit(n, b) == (n \div b) % 2 = 1
Entry(e) == [letter |-> e[1], type |-> e[2], array |-> Bit(e[3], 1), must |-> Bit(e[3], 2), novar |-> Bit(e[3], 4),
             named |-> Bit(e[3], 8), name |-> SubSeq(e, 4, Len(e))]

ANYTEXT == <<0 - 1>>
NOTEXT == <<0 - 2>>
LOCAL HasPrefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
LOCAL Where(s, c) == SelectInSeq(s, LAMBDA x : x = c)
LOCAL EqualsSign == 61
LOCAL Dash == 45

(* ------------------------- texts to values -------------------------------- *)
RECURSIVE ArgSkip(_)
ArgSkip(s) == IF s # <<>> /\ IsSpace(s[1]) THEN ArgSkip(Tail(s)) ELSE s
LOCAL LeadingIn(s, P(_)) ==
  LET bad == SelectInSeq(s, LAMBDA c : ~P(c)) IN IF bad = 0 THEN s ELSE SubSeq(s, 1, bad - 1)
LOCAL NoZeros(d) == LET k == SelectInSeq(d, LAMBDA c : c # 48) IN IF k = 0 THEN <<48>> ELSE SubSeq(d, k, Len(d))
(* sign, digits without leading zeros, and what follows *)
Decimal(s) ==
  LET t == ArgSkip(s)
      neg == t # <<>> /\ t[1] = Dash
      u == IF t # <<>> /\ t[1] \in {Dash, 43} THEN Tail(t) ELSE t
      d == LeadingIn(u, IsDigit)
  IN [neg |-> neg, none |-> d = <<>>, digits |-> IF d = <<>> THEN <<48>> ELSE NoZeros(d), rest |-> SubSeq(u, Len(d) + 1, Len(u)), moved |-> t # s]
Signed(neg, d) == IF neg /\ d # <<48>> THEN <<Dash>> \o d ELSE d
(* the widest values of the types; what lies beyond is unspecified *)
LOCAL Widest16 == S("32767")
LOCAL Widest16U == S("65535")
LOCAL Widest32 == S("2147483647")
LOCAL Widest32U == S("4294967295")
LOCAL Widest64 == S("9223372036854775807")
LOCAL AtMost(d, most) == Len(d) < Len(most) \/ (Len(d) = Len(most) /\ ~LexLess(most, d))
Whole(s, most, negatives) ==
  LET x == Decimal(s) IN
  IF x.none \/ ~AtMost(x.digits, most) \/ (x.neg /\ ~negatives /\ x.digits # <<48>>) THEN ANYTEXT ELSE Signed(x.neg, x.digits)

(* digits times k, schoolbook *)
TimesDigits(d, k) ==
  LET step == FoldRight(LAMBDA c, acc : LET v == (c - 48) * k + acc.carry IN [carry |-> v \div 10, out |-> <<48 + (v % 10)>> \o acc.out],
                        d, [carry |-> 0, out |-> <<>>])
  IN NoZeros((IF step.carry = 0 THEN <<>> ELSE DecDigits(step.carry)) \o step.out)
SizeValue(s, negatives) ==
  LET x == Decimal(s)
      c == IF x.rest = <<>> THEN 98 ELSE LowerByte(x.rest[1])
      times == CASE c = 107 -> 1 [] c = 109 -> 2 [] c = 103 -> 3 [] OTHER -> 0
      RECURSIVE Up(_, _)
      Up(d, n) == IF n = 0 THEN d ELSE Up(TimesDigits(d, 1024), n - 1)
      v == TLCEval(Up(x.digits, times))
  IN IF x.none \/ x.moved \/ ~AtMost(x.digits, Widest64) \/ ~AtMost(v, Widest64) \/ (x.neg /\ ~negatives) \/ (x.rest # <<>> /\ x.rest[1] \in {32, 43, 45}) THEN ANYTEXT
     ELSE Signed(x.neg, v)

BaseValue(s, base, most) ==
  LET t == ArgSkip(s)
      u == IF base = 16 /\ Len(t) >= 2 /\ t[1] = 48 /\ t[2] \in {88, 120} THEN SubSeq(t, 3, Len(t)) ELSE t
      d == LeadingIn(u, LAMBDA c : IsHexDigit(c) /\ HexVal(c) < base)
      v == NoZeros(d)
  IN IF d = <<>> \/ Len(v) > most THEN ANYTEXT ELSE Dec(FoldLeft(LAMBDA n, c : n * base + HexVal(c), 0, v))

(* numbers with a point, as printed with six places; only those every binary format holds exactly, or the wide format prints back *)
FloatValue(s, wide) ==
  LET x == Decimal(s)
      point == x.rest # <<>> /\ x.rest[1] = DOT
      frac == IF point THEN LeadingIn(Tail(x.rest), IsDigit) ELSE <<>>
      after == IF point THEN SubSeq(x.rest, Len(frac) + 2, Len(x.rest)) ELSE x.rest
      zero == x.digits = <<48>> /\ \A i \in 1..Len(frac) : frac[i] = 48
  IN IF x.none \/ (after # <<>> /\ (after[1] \in {69, 101, 88, 120, 80, 112} \/ after[1] >= 128)) \/ (zero /\ x.neg) THEN ANYTEXT
     ELSE IF ~wide /\ (Len(x.digits) > 5 \/ NoZeros(frac \o <<48>>) \notin {<<48>>, <<53, 48>>, <<50, 53, 48>>, <<55, 53, 48>>}
                       \/ (Len(frac) > 0 /\ frac[1] = 48 /\ \E i \in 1..Len(frac) : frac[i] # 48)) THEN ANYTEXT
     ELSE IF wide /\ (Len(x.digits) > 8 \/ Len(frac) > 6) THEN ANYTEXT
     ELSE (IF x.neg THEN <<Dash>> ELSE <<>>) \o x.digits \o <<DOT>> \o frac \o [i \in 1..(6 - Len(frac)) |-> 48]

Yes(s) == s # <<>> /\ s[1] \in {116, 84, 121, 89, 49}
Truth(b) == IF b THEN <<49>> ELSE <<48>>

(* what storing text (NOTEXT: the option came alone) leaves where old was *)
Convert(ty, text, old) ==
  CASE ty \in {ArgBool, ArgBoolInt} -> Truth(text = NOTEXT \/ Yes(text))
    [] ty \in {ArgBoolNeg, ArgBoolIntNeg, ArgBoolArg, ArgBoolIntArg} -> Truth(text # NOTEXT /\ Yes(text))
    [] ty = ArgChar -> IF text = <<>> THEN <<0>> ELSE <<text[1]>>
    [] ty = ArgText -> text
    [] ty = ArgShort -> Whole(text, Widest16, TRUE)
    [] ty = ArgUShort -> Whole(text, Widest16U, FALSE)
    [] ty = ArgInt -> Whole(text, Widest32, TRUE)
    [] ty = ArgUInt -> Whole(text, Widest32U, FALSE)
    [] ty = ArgLong -> Whole(text, Widest64, TRUE)
    [] ty = ArgULong -> Whole(text, Widest64, FALSE)
    [] ty = ArgFloat -> FloatValue(text, FALSE)
    [] ty = ArgDouble -> FloatValue(text, TRUE)
    [] ty = ArgBin -> BaseValue(text, 2, 30)
    [] ty = ArgOct -> BaseValue(text, 8, 10)
    [] ty = ArgHex -> BaseValue(text, 16, 7)
    [] ty = ArgSize -> SizeValue(text, TRUE)
    [] ty = ArgUSize -> SizeValue(text, FALSE)
    [] ty = ArgIncr -> IF text # NOTEXT THEN Whole(text, Widest32, TRUE)
                       ELSE IF old = ANYTEXT \/ Len(Decimal(old).digits) > 9 THEN ANYTEXT
                       ELSE LET x == Decimal(old)  n == DecValue(x.digits) IN
                            IF x.neg THEN Signed(n > 1, Dec(n - 1)) ELSE Dec(n + 1)

(* what a variable holds before anything is stored in it (set so by the harness) *)
Preset(e) == IF Separates(e.letter) \/ e.array \/ e.type = ArgText THEN <<>>
             ELSE IF e.type = ArgChar THEN <<<<122>>>>
             ELSE IF e.type \in {ArgFloat, ArgDouble} THEN <<S("7.000000")>> ELSE <<<<55>>>>

(* -------------------------- the table itself ------------------------------ *)
WellFormed(t) ==
  LET n == Len(t) IN
  \A i \in 1..n :
    LET e == t[i]  before == {j \in 1..(i - 1) : t[j].letter \in {MAND, MAYBE}} IN
    /\ e.letter \in {MAND, MAYBE} => \A j \in before : ~t[j].array
    /\ e.letter = MAND => \A j \in before : t[j].letter = MAND
    /\ e.array => TakesValue(e.type)
    /\ (e.novar => Separates(e.letter))
    /\ Separates(e.letter) => i > 1 /\ i < n /\ ~Separates(t[i - 1].letter)
(* entries tied to i by an unbroken run of separators of the kinds given *)
RECURSIVE Reach(_, _, _, _)
Reach(t, i, by, kinds) ==
  LET s == i + by IN
  IF s < 1 \/ s > Len(t) \/ t[s].letter \notin kinds \/ s + by < 1 \/ s + by > Len(t) THEN {} ELSE {s + by} \cup Reach(t, s + by, by, kinds)
Rivals(t, i) == Reach(t, i, 1, {OR, XOR}) \cup Reach(t, i, 0 - 1, {OR, XOR})
(* separators around arguments without letters promise nothing we can name *)
OddTable(t) == \E i \in 1..Len(t) : Separates(t[i].letter) /\ (t[i - 1].letter \in {MAND, MAYBE} \/ t[i + 1].letter \in {MAND, MAYBE})

(* ---------------------------- the machine --------------------------------- *)
(* cfg: close, toggle, multi; files: names to contents *)
Fresh(t) == [st |-> "go", vals |-> [i \in 1..Len(t) |-> Preset(t[i])], used |-> [i \in 1..Len(t) |-> FALSE], await |-> <<>>, last |-> FALSE,
             lost |-> 0]
LOCAL Fail(m) == [m EXCEPT !.st = "fail"]
LOCAL Open(m) == [m EXCEPT !.st = "any"]

Put(t, m, i, text) ==
  LET e == t[i]  old == m.vals[i]
      v == Convert(e.type, text, IF old = <<>> THEN <<>> ELSE old[Len(old)])
  IN [m EXCEPT !.vals[i] = IF e.array THEN Append(old, v) ELSE <<v>>,
               !.lost = IF e.type = ArgText /\ ~e.array /\ old # <<>> THEN m.lost + 1 ELSE m.lost]
Give(t, cfg, m, i, text) ==
  LET e == t[i]  m1 == [m EXCEPT !.used[i] = TRUE] IN
  IF \/ ~cfg.multi /\ m.used[i] /\ ~e.array /\ e.type # ArgIncr
     \/ \E j \in Rivals(t, i) : m.used[j]
  THEN Fail(m)
  ELSE IF text # NOTEXT \/ ~TakesValue(e.type) THEN Put(t, m1, i, text)
  ELSE [m1 EXCEPT !.await = Append(@, i)]

LOCAL Attached(cfg, w) ==
  LET p == IF cfg.close THEN Where(w, EqualsSign) ELSE 0 IN
  IF p = 0 THEN [head |-> w, text |-> NOTEXT] ELSE [head |-> SubSeq(w, 1, p - 1), text |-> SubSeq(w, p + 1, Len(w))]
FILEARG == S("argv-file")
QUIET == {S("usage"), S("help"), S("usage-short"), S("usage-long"), S("usage-all"), S("version"), S("argv-display")}
NumberLike(w) == \A i \in 1..Len(w) : IsDigit(w[i]) \/ w[i] \in {43, 45, 46}

RECURSIVE TakeWords(_, _, _, _, _), TakeLetters(_, _, _, _, _, _)
SplitBy(text, P(_)) ==     \* the non-empty pieces between characters satisfying P
  LET f == FoldLeft(LAMBDA acc, c : IF P(c) THEN [out |-> IF acc.cur = <<>> THEN acc.out ELSE Append(acc.out, acc.cur), cur |-> <<>>]
                                    ELSE [acc EXCEPT !.cur = Append(@, c)], [out |-> <<>>, cur |-> <<>>], text)
  IN IF f.cur = <<>> THEN f.out ELSE Append(f.out, f.cur)
TakeFile(t, cfg, m, name, depth) ==
  IF depth = 0 \/ name = <<>> \/ name = <<Dash>> \/ 47 \in Range(name) \/ DOT \in Range(name) THEN Open(m)
  ELSE IF name \notin DOMAIN cfg.files THEN Fail(m)
  ELSE LET lines == TLCEval(SplitBy(cfg.files[name], LAMBDA c : c = NL)) IN
       IF \E i \in 1..Len(lines) : Len(lines[i]) > 1000 THEN Open(m)
       ELSE LET m1 == TakeWords(t, cfg, [m EXCEPT !.last = FALSE], lines, depth - 1) IN [m1 EXCEPT !.last = m.last]

TakeLong(t, cfg, m, w, depth) ==
  LET x == Attached(cfg, w)
      name == SubSeq(x.head, 3, Len(x.head))
      fits == {i \in 1..Len(t) : t[i].named /\ HasPrefix(name, t[i].name)}
  IN IF name = <<>> THEN Fail(m)
     ELSE IF Cardinality(fits) > 1 THEN (IF \E i \in fits : t[i].name = name THEN Open(m) ELSE Fail(m))
     ELSE IF fits # {} THEN Give(t, cfg, m, CHOOSE i \in fits : TRUE, x.text)
     ELSE IF HasPrefix(name, FILEARG)
          THEN (IF x.text # NOTEXT THEN TakeFile(t, cfg, m, x.text, depth) ELSE [m EXCEPT !.await = Append(@, 0)])
     ELSE IF \E q \in QUIET : HasPrefix(name, q) THEN m
     ELSE Fail(m)

(* letters k.. of a group *)
TakeLetters(t, cfg, m, x, k, depth) ==
  IF m.st # "go" \/ k > Len(x.head) THEN m
  ELSE LET c == x.head[k]
           i == SelectInSeq(t, LAMBDA e : e.letter = c)
           h == IF m.await = <<>> THEN 0 ELSE Head(m.await)
       IN IF c >= 251 THEN Open(m)
          ELSE IF i # 0 THEN TakeLetters(t, cfg, Give(t, cfg, m, i, x.text), x, k + 1, depth)
          ELSE IF c = 63 THEN TakeLetters(t, cfg, m, x, k + 1, depth)
          ELSE IF k = 2 /\ NumberLike(x.head) /\ h # 0 /\ t[h].type \in {ArgShort, ArgInt, ArgLong, ArgFloat, ArgDouble}
          THEN (IF x.text # NOTEXT THEN Open(m) ELSE Put(t, [m EXCEPT !.await = Tail(@)], h, x.head))
          ELSE Fail(m)

TakePlain(t, cfg, m, w, depth) ==
  LET free(kind) == SelectInSeq([i \in 1..Len(t) |-> i], LAMBDA i : t[i].letter = kind /\ (~m.used[i] \/ t[i].array))
      store(i) == Put(t, [m EXCEPT !.used[i] = TRUE], i, w)
  IN IF m.await # <<>>
     THEN (IF t = <<>> THEN Open(m)
           ELSE LET h == Head(m.await)  m1 == [m EXCEPT !.await = Tail(@)] IN
                IF h = 0 THEN TakeFile(t, cfg, m1, w, depth) ELSE Put(t, m1, h, w))
     ELSE IF free(MAND) # 0 THEN store(free(MAND))
     ELSE IF free(MAYBE) # 0 THEN store(free(MAYBE))
     ELSE Fail(m)

TakeWord(t, cfg, m, w, depth) ==
  IF m.st # "go" THEN m
  ELSE IF w = <<Dash, Dash>> /\ (~m.last \/ cfg.toggle) THEN [m EXCEPT !.last = ~@]
  ELSE IF ~m.last /\ HasPrefix(<<Dash, Dash>>, w) THEN TakeLong(t, cfg, m, w, depth)
  ELSE IF ~m.last /\ Len(w) > 1 /\ w[1] = Dash
       THEN (LET x == Attached(cfg, w) IN IF Len(x.head) = 1 THEN Fail(m) ELSE TakeLetters(t, cfg, m, x, 2, depth))
  ELSE TakePlain(t, cfg, m, w, depth)
TakeWords(t, cfg, m, ws, depth) == FoldLeft(LAMBDA acc, w : TLCEval(TakeWord(t, cfg, acc, w, depth)), m, ws)

(* everything demanded was given *)
Complete(t, m) ==
  /\ m.await = <<>>
  /\ \A i \in 1..Len(t) : (t[i].letter = MAND \/ t[i].must) => m.used[i]
  /\ \A i \in 1..Len(t) : t[i].letter = XOR =>
       LET run == {i - 1, i + 1} \cup Reach(t, i + 1, 1, {XOR}) \cup Reach(t, i - 1, 0 - 1, {XOR}) IN \E j \in run : m.used[j]

(* the environment's words come before the line, or after it; each list has its own "--" *)
ProcessArgs(t, cfg, env, ws) ==
  IF ~WellFormed(t) THEN Fail(Fresh(t))
  ELSE IF OddTable(t) THEN Open(Fresh(t))
  ELSE LET ew == IF cfg.env THEN SplitBy(env, LAMBDA c : c \in {32, 9}) ELSE <<>>
           run(m, list) == TakeWords(t, cfg, [m EXCEPT !.last = FALSE], list, 3)
           m1 == TLCEval(IF cfg.after THEN run(run(Fresh(t), ws), ew) ELSE run(run(Fresh(t), ew), ws))
       IN IF m1.st = "go" THEN (IF Complete(t, m1) THEN m1 ELSE Fail(m1)) ELSE m1

(* ----------------------- values written as text --------------------------- *)
LOCAL EscLetters == [c \in {27, 94, 34, 39, 92, 10, 13, 9, 8, 12, 7} |->
  CASE c = 27 -> 101 [] c = 10 -> 110 [] c = 13 -> 114 [] c = 9 -> 116 [] c = 8 -> 98 [] c = 12 -> 102 [] c = 7 -> 97 [] OTHER -> c]
ShownChar(c) == IF c \in DOMAIN EscLetters THEN <<BSL, EscLetters[c]>>
                ELSE IF IsPrint(c) THEN <<c>> ELSE <<BSL, 48 + (c \div 64), 48 + ((c \div 8) % 8), 48 + (c % 8)>>
RECURSIVE InBase(_, _)
InBase(n, b) == IF n < b THEN <<HexL[n + 1]>> ELSE Append(InBase(n \div b, b), HexL[(n % b) + 1])
LOCAL InParens(s) == S(" (") \o s \o S(")")
(* digits divided by 1024, schoolbook: quotient and remainder *)
LOCAL By1024(d) ==
  LET f == FoldLeft(LAMBDA acc, c : LET v == acc.rem * 10 + (c - 48) IN [out |-> Append(acc.out, 48 + (v \div 1024)), rem |-> v % 1024], [out |-> <<>>, rem |-> 0], d)
  IN [quot |-> NoZeros(f.out), rem |-> f.rem]
(* sizes in the largest unit that divides them *)
LOCAL ShownSize(v) ==
  LET x == Decimal(v)
      RECURSIVE Units(_, _)
      Units(d, n) == IF n = 3 THEN [d |-> d, n |-> n] ELSE LET q == By1024(d) IN IF q.rem = 0 THEN Units(q.quot, n + 1) ELSE [d |-> d, n |-> n]
      u == Units(x.digits, 0)
  IN IF x.digits = <<48>> THEN <<48>>
     ELSE IF u.n = 0 THEN v
     ELSE Signed(x.neg, u.d) \o <<<<107, 109, 103>>[u.n]>> \o InParens(v)
ShownValue(ty, v) ==
  IF v = ANYTEXT THEN ANYTEXT
  ELSE CASE ty \in {ArgBool, ArgBoolNeg, ArgBoolArg, ArgBoolInt, ArgBoolIntNeg, ArgBoolIntArg} -> IF v = <<48>> THEN S("false (0)") ELSE S("true (! 0)")
         [] ty \in {ArgChar, ArgText} -> ConcatMap(ShownChar, v)
         [] ty \in {ArgBin, ArgOct, ArgHex} ->
              (LET n == DecValue(v) IN
               IF Len(v) > 8 THEN ANYTEXT
               ELSE IF n = 0 THEN <<48>>
               ELSE (CASE ty = ArgBin -> S("0b") \o InBase(n, 2) [] ty = ArgOct -> <<48>> \o InBase(n, 8) [] OTHER -> S("0x") \o InBase(n, 16)) \o InParens(v))
         [] ty \in {ArgSize, ArgUSize} -> ShownSize(v)
         [] OTHER -> v
ShownEntry(e, vs) ==
  IF Separates(e.letter) THEN <<>>
  ELSE IF e.array /\ vs = <<>> THEN S("0 array entries")
  ELSE IF vs = <<>> THEN S("(null)")
  ELSE LET one == ShownValue(e.type, vs[1]) IN
       IF one = ANYTEXT \/ ~e.array \/ Len(vs) = 1 THEN one ELSE one \o S(" (1st of ") \o Dec(Len(vs)) \o S(" entries)")
(* the words of the line, cut to the buffer *)
CopiedArgs(ws, room) == LET all == Join(ws, <<SP>>) IN SubSeq(all, 1, MinOf(room - 1, Len(all)))
=============================================================================
