---------------------------- MODULE RateMachine ----------------------------
(* The limiter with a caller that calls whenever it likes and a system that
   ends waits as late as it likes.                                            *)
EXTENDS Rate, TLC
CONSTANTS Rates, MaxLate, MaxGap, MaxSec
VARIABLES rate, lnow, ltick, lcalls, waited, insec
vars == <<rate, lnow, ltick, lcalls, waited, insec>>
P == PeriodOf(rate)
Init == rate \in Rates /\ lnow \in {<<0, k>> : k \in 0..(Second - 1)} /\ ltick = <<>> /\ lcalls = 0 /\ waited = <<0, 0>> /\ insec = 0
Call(gap, late) ==
  LET at == TimePlus(lnow, gap)
      w == WaitsFor(at, ltick, P, 1)
      ret == ReturnOf(at, w, late)
  IN /\ ret[1] <= MaxSec
     /\ lnow' = ret /\ ltick' = TickAfter(ret, P) /\ waited' = w /\ lcalls' = IF lcalls < 2 THEN lcalls + 1 ELSE 2
     /\ insec' = IF ret[1] = lnow[1] THEN insec + 1 ELSE 1
     /\ UNCHANGED rate
Next == \E g \in 0..MaxGap, l \in 0..MaxLate : Call(NormTime(<<0, g>>), l)
Spec == Init /\ [][Next]_vars
Begun == (Second + P - 1) \div P             \* the periods that begin in a second
ShortWait == ~TimeLess(<<0, P>>, waited) \/ (P = Second /\ ~TimeLess(<<1, 0>>, waited))
NotFaster == insec <= Begun + (IF lcalls < 2 THEN 1 ELSE 0)
TickAhead == ltick # <<>> => TimeLess(lnow, ltick) /\ ~TimeLess(TimePlus(lnow, IF P = Second THEN <<1, 0>> ELSE <<0, P>>), ltick)
\* a caller that leaves a period between calls is never held
Unheld == [][\A g \in P..MaxGap : lcalls > 0 => LET w == WaitsFor(TimePlus(lnow, NormTime(<<0, g>>)), ltick, P, 1) IN w = <<0, 0>>]_vars
=============================================================================
