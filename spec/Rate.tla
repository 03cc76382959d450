-------------------------------- MODULE Rate --------------------------------
(* A rate limiter: calls are let through at ticks.  A time is <<whole seconds,
   parts>> with Second parts to a second.  The period of r events a second is
   Second \div r parts (a whole second for r = 1).                              *)
EXTENDS Bytes
CONSTANT Second
PeriodOf(r) == Second \div r
NormTime(t) == IF t[2] >= Second THEN <<t[1] + 1, t[2] - Second>> ELSE t
TimeLess(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
TimePlus(x, y) == NormTime(<<x[1] + y[1], x[2] + y[2]>>)
TimeMinus(x, y) == IF x[2] >= y[2] THEN <<x[1] - y[1], x[2] - y[2]>> ELSE <<x[1] - y[1] - 1, x[2] + Second - y[2]>>
\* the tick after time t: the next multiple of the period, counted from the start of t's second
TickAfter(t, p) == IF p = Second THEN <<t[1] + 1, 0>> ELSE NormTime(<<t[1], t[2] - (t[2] % p) + p>>)
\* the clock as read: whole multiples of Grain parts
Reading(t, grain) == <<t[1], t[2] - (t[2] % grain)>>
(* One call: made at time t, with `tick` the tick after the last return (<<>> at
   the first call, whose own time counts instead); `late` is what the system
   adds to a wait.  It waits until the tick if that is still to come.          *)
WaitsFor(t, tick, p, grain) ==
  LET c == Reading(t, grain)
      k == IF tick = <<>> THEN TickAfter(c, p) ELSE tick
  IN IF TimeLess(c, k) THEN TimeMinus(k, c) ELSE <<0, 0>>
ReturnOf(t, w, late) == IF w = <<0, 0>> THEN t ELSE TimePlus(TimePlus(t, w), <<0, late>>)

(* The call events of a script: start, then for each call <<seconds, parts>> that
   pass before it and how late its wait ends.                                   *)
RECURSIVE PacedReturns(_, _, _, _, _, _, _)
PacedReturns(a, i, t, tick, p, grain, out) ==
  IF i > Len(a) THEN out
  ELSE LET at == TimePlus(t, <<a[i], a[i + 1]>>)
           w == WaitsFor(at, tick, p, grain)
           ret == ReturnOf(at, w, a[i + 2])
       IN PacedReturns(a, i + 4, ret, TickAfter(Reading(ret, grain), p), p, grain, Append(Append(out, ret[1]), ret[2]))
(* args: clock kind (0: nanosecond clock and absolute waits, 1: microsecond clock and relative waits), rate,
   seconds and parts of the start, then per call: seconds, parts, lateness, interruptions *)
MatchPaced(a, r) ==
  r.null = 1 /\ r.gone = 1
  /\ r.rets = PacedReturns(a, 5, <<a[3], a[4]>>, <<>>, PeriodOf(a[2]), IF a[1] = 0 THEN 1 ELSE 1000, <<>>)
(* A busy caller under a limiter that adjusts itself: args kind, rate, adjusting every so many events, calls, parts each
   call takes; the calls take no less than 3 and no more than 5 quarters of the time they should (a second's grace).
   Times in milliseconds.                                                        *)
MatchBusy(a, r) ==
  LET due == (a[4] \div a[2]) * 1000 + ((a[4] % a[2]) * 1000) \div a[2]
  IN r.ms >= (due \div 4) * 3 - 1000 /\ r.ms <= (due \div 4) * 5 + 1000
(* A caller slower than the rate waits at its first call at most, adjusting or not *)
MatchIdle(a, r) == r.waits <= 1
=============================================================================
