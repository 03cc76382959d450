------------------------------- MODULE Helpers -------------------------------
(* Reading in full, numbers from the environment, quoting, counters, times. *)
EXTENDS Bytes

(* ----------------------------- reading ---------------------------------- *)
(* data: what the other side has sent; ans: what each call to read answers -
   n > 0 up to n octets, 0 end of file, -1 interrupted, otherwise an error   *)
RECURSIVE ReadRun(_, _, _, _, _)
ReadRun(avail, need, ans, i, got) ==
  IF got = need THEN [ok |-> TRUE, got |-> got]
  ELSE IF i > Len(ans) \/ got = avail THEN
         IF i <= Len(ans) /\ ans[i] = -1 THEN ReadRun(avail, need, ans, i + 1, got) ELSE [ok |-> FALSE, got |-> got]
  ELSE IF ans[i] = -1 THEN ReadRun(avail, need, ans, i + 1, got)
  ELSE IF ans[i] <= 0 THEN [ok |-> FALSE, got |-> got]
  ELSE ReadRun(avail, need, ans, i + 1, got + MinOf(ans[i], MinOf(need - got, avail - got)))
MatchRead(a, r) ==
  LET s == ReadRun(Len(a[1]), a[2], SubSeq(a, 3, Len(a)), 1, 0) IN
  /\ r.ok = (IF s.ok THEN 1 ELSE 0) /\ r.used = s.got
  /\ SubSeq(r.buf, 1, s.got) = SubSeq(a[1], 1, s.got)

(* ------------------------------ quoting --------------------------------- *)
QuoteTab == TLCEval([c \in Byte |-> IF c = DQ THEN <<BSL, DQ>> ELSE IF IsPrint(c) THEN <<c>> ELSE <<BSL, 120>> \o Hex2L(c)])
Quoted(d) == <<DQ>> \o ConcatMap(LAMBDA c : QuoteTab[c], d) \o <<DQ>>

(* ------------------------------ numbers --------------------------------- *)
(* Values as eight octets.  Text that is not plain digits is either refused
   or, where the C library reads it in its own ways, left open.              *)
RECURSIVE Scale8(_, _, _)
Scale8(v, m, c) ==                     \* v * m + c, dropping what does not fit; c carried up
  IF v = <<>> THEN <<>> ELSE LET x == v[Len(v)] * m + c IN Append(Scale8(SubSeq(v, 1, Len(v) - 1), m, x \div 256), x % 256)
Num8(ds, base) == FoldLeft(LAMBDA v, d : Scale8(v, base, HexVal(d)), Repeat(0, 9), ds)   \* nine octets, to see overflow
InBase(c, b) == (IsDigit(c) /\ c - 48 < b) \/ (b = 16 /\ IsHexDigit(c))
NumText(t) ==        \* [kind |-> "yes" (with value), "no", "any"]
  LET b == IF Len(t) >= 2 /\ t[1] = 48 /\ t[2] \in {88, 120} THEN 16 ELSE IF t # <<>> /\ t[1] = 48 THEN 8 ELSE 10
      ds == IF b = 16 THEN SubSeq(t, 3, Len(t)) ELSE t
      v == Num8(SubSeq(ds, 1, MinOf(Len(ds), 22)), b)
      sz == StripZeros(ds)
  IN IF t = <<>> \/ IsSpace(t[1]) \/ t[1] \in {43, 45} \/ ds = <<>> THEN [kind |-> "any"]
     ELSE IF ~\A i \in 1..Len(ds) : InBase(ds[i], b) THEN [kind |-> "no"]
     ELSE IF Len(ds) > 22 \/ Len(sz) > (IF b = 10 THEN 20 ELSE IF b = 16 THEN 16 ELSE 21) \/ v[1] # 0 THEN [kind |-> "any"]
     ELSE [kind |-> "yes", v |-> Tail(v)]
CString(t) == LET z == {i \in 1..Len(t) : t[i] = 0} IN IF z = {} THEN t ELSE SubSeq(t, 1, (CHOOSE i \in z : \A j \in z : i <= j) - 1)
MatchGetenv(a, r) ==
  IF a[1] = 0 THEN r = [ok |-> 0, v |-> <<>>]
  ELSE LET n == TLCEval(NumText(CString(a[2]))) IN
       CASE n.kind = "yes" -> r = [ok |-> 1, v |-> <<n.v>>]
         [] n.kind = "no" -> r = [ok |-> 0, v |-> <<>>]
         [] OTHER -> TRUE

(* ------------------------------ counters -------------------------------- *)
Signed(b) == IF b >= 128 THEN b - 256 ELSE b
Bool(x) == IF x THEN 1 ELSE 0
CtStep(v, o, x) ==
  CASE o = 0 -> [v |-> x, r |-> 0]
    [] o = 1 -> [v |-> v + x, r |-> 0]
    [] o = 2 -> [v |-> v - x, r |-> 0]
    [] o = 3 -> [v |-> v + 1, r |-> 0]
    [] o = 4 -> [v |-> v - 1, r |-> 0]
    [] o = 5 -> [v |-> 0, r |-> v]
    [] o = 6 -> [v |-> v - x, r |-> Bool(v = x)]
    [] o = 7 -> [v |-> v - 1, r |-> Bool(v = 1)]
    [] o = 8 -> [v |-> v + 1, r |-> Bool(v = -1)]
    [] o = 9 -> [v |-> v + x, r |-> Bool(v + x < 0)]
RECURSIVE CtRun(_, _, _, _)
CtRun(v, p, i, unit) == IF i > Len(p) \div 2 THEN <<>>
  ELSE LET s == CtStep(v, p[2 * i - 1], Signed(p[2 * i]) * unit) IN <<<<s.r, s.v>>>> \o CtRun(s.v, p, i + 1, unit)
MatchAtomic(a, r) == r.out = CtRun(0, a[1], 1, a[2])       \* the values of the steps, in units of a[2]
(* a wide counter holds high * 2^32 + low; the same steps, far from zero: what
   is recorded is the distance from the base, and whether zero gave it all back *)
RECURSIVE Ct64Run(_, _, _, _, _)
Ct64Run(base, v, p, i, unit) == IF i > Len(p) \div 2 THEN <<>>
  ELSE LET o == p[2 * i - 1]  x == Signed(p[2 * i]) * unit IN
       IF o = 5 THEN <<<<1, v>>>> \o Ct64Run(base, v, p, i + 1, unit)
       ELSE LET s == CtStep(v, o, x)
                r == IF base = 0 THEN s.r ELSE IF o \in {6, 7, 8} THEN 0 ELSE IF o = 9 THEN Bool(base < 0) ELSE 0
            IN <<<<r, s.v>>>> \o Ct64Run(base, s.v, p, i + 1, unit)
MatchAtomic64(a, r) == r.out = Ct64Run(a[1], 0, a[2], 1, a[3])
(* a shared pointer reads as what it was last set to *)
MatchAtPtr(a, r) == r.out = [i \in 1..(Len(a[1]) - 1) |-> <<a[1][i], 1, a[1][i + 1]>>]
Third(n) == (n + 2) \div 3
MatchAtThr(a, r) == r = [sum |-> 6 * (a[1] - 3 * Third(a[1])), drained |-> 6 * a[1], last |-> 1, distinct |-> 1, kept |-> 1]

(* -------------------------------- times --------------------------------- *)
(* a time is <<seconds, nanoseconds>> with 0 <= nanoseconds < 10^9 *)
E9 == 1000000000
TimeAdd(x, y) == LET n == x[2] + y[2] IN <<x[1] + y[1] + n \div E9, n % E9>>
TimeSub(x, y) == IF x[2] >= y[2] THEN <<x[1] - y[1], x[2] - y[2]>> ELSE <<x[1] - y[1] - 1, x[2] - y[2] + E9>>
MatchTime(a, r) ==       \* a: two times, then seconds and 512ths for the conversion
  LET x == <<a[1], a[2]>>  y == <<a[3], a[4]>> IN
  r = [add |-> TimeAdd(x, y), sub |-> TimeSub(x, y), from |-> <<a[5], a[6] * 1953125>>, whole |-> a[5], part |-> a[6]]
MatchSwap(a, r) == r = [swap |-> Reverse(a[1]), to |-> a[1], back |-> a[1]]
=============================================================================
