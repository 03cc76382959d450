-------------------------------- MODULE Spool --------------------------------
(* A spool directory.  inc, act: what the two folders hold, name -> contents
   (folders and dangling links have contents <<>>); sure: the names that must
   be handed out before the spool may say that there is nothing.            *)
EXTENDS Bytes

NoFiles == [x \in {} |-> <<>>]
SpInit == [inc |-> NoFiles, act |-> NoFiles, sure |-> {}]
Eligible(inc) == {n \in DOMAIN inc : n[1] # DOT /\ inc[n] # <<>>}
Put(f, n, c) == [x \in DOMAIN f \cup {n} |-> IF x = n THEN c ELSE f[x]]
Drop(f, n) == [x \in DOMAIN f \ {n} |-> f[x]]
Shown(l) == [x \in {l[i][1] : i \in 1..Len(l)} |-> l[CHOOSE i \in 1..Len(l) : l[i][1] = x][2]]
NameArg(o) == LET t == Tail(o)  z == {i \in 1..Len(t) : t[i] = 0} IN IF z = {} THEN t ELSE SubSeq(t, 1, (CHOOSE i \in z : \A j \in z : i <= j) - 1)
DataArg(o) == LET n == Len(NameArg(o)) IN SubSeq(o, n + 3, Len(o))

Moved(s, n) == [inc |-> Drop(s.inc, n), act |-> Put(s.act, n, s.inc[n])]
Left(s) == [inc |-> s.inc, act |-> s.act]
(* one file was being handed out when the call stopped half-way: it is in one
   of the two folders, whole; whatever had its name in active may be gone.   *)
Torn(s, v) ==
  \/ v = Left(s)
  \/ \E n \in Eligible(s.inc) :
       /\ \A m \in (DOMAIN s.inc \cup DOMAIN v.inc) \ {n} : m \in DOMAIN s.inc /\ m \in DOMAIN v.inc /\ v.inc[m] = s.inc[m]
       /\ \A m \in (DOMAIN s.act \cup DOMAIN v.act) \ {n} : m \in DOMAIN s.act /\ m \in DOMAIN v.act /\ v.act[m] = s.act[m]
       /\ IF n \in DOMAIN v.inc THEN v.inc[n] = s.inc[n] /\ (n \in DOMAIN v.act => v.act[n] = s.inc[n] \/ (n \in DOMAIN s.act /\ v.act[n] = s.act[n]))
          ELSE n \in DOMAIN v.act /\ v.act[n] = s.inc[n]
SpNext(s, r, v) ==       \* an undisturbed call
  IF r.got = <<>> THEN v = Left(s) /\ s.sure = {}
  ELSE r.got[1] \in Eligible(s.inc) /\ v = Moved(s, r.got[1])
(* two calls at once: as one after the other, in either order *)
SpTwo(s, x, y, v) ==
  IF x = <<>> THEN s.sure = {} /\ SpNext(s, [got |-> y], v)
  ELSE /\ x[1] \in Eligible(s.inc)
       /\ LET m == Moved(s, x[1]) IN SpNext([inc |-> m.inc, act |-> m.act, sure |-> s.sure \ {x[1]}], [got |-> y], v)
SpAnswer(s, o, r, v) ==
  LET k == OneChar(o[1] - 31)  n == NameArg(o) IN
  CASE k \in {"+", "d", "y"} -> v = [inc |-> Put(s.inc, n, IF k = "+" THEN DataArg(o) ELSE <<>>), act |-> s.act]
    [] k = "a" -> v = [inc |-> s.inc, act |-> Put(s.act, n, DataArg(o))]
    [] k = "-" -> v = [inc |-> Drop(s.inc, n), act |-> s.act]
    [] k = "_" -> v = [inc |-> s.inc, act |-> Drop(s.act, n)]
    [] k = "N" -> SpNext(s, r, v)
    [] k = "O" -> v = Left(s) /\ r.gone = 1
    [] k = "I" -> IF r.two = 0 THEN SpNext(s, r, v) ELSE SpTwo(s, r.got, r.got2, v) \/ SpTwo(s, r.got2, r.got, v)
    [] k = "F" -> IF r.hit = 0 THEN SpNext(s, r, v)
                  ELSE IF r.got = <<>> THEN Torn(s, v) ELSE r.got[1] \in Eligible(s.inc) /\ v = Moved(s, r.got[1])
    [] k = "C" -> IF r.died = 0 THEN Torn(s, v)
                  ELSE IF r.died = 3 THEN \E x \in Eligible(s.inc) : v = Moved(s, x)
                  ELSE r.died = 4 /\ v = Left(s) /\ s.sure = {}
SpSure(s, o, r, v) ==
  LET k == OneChar(o[1] - 31)  n == NameArg(o) IN
  CASE k \in {"+", "-", "d", "y"} -> s.sure \ {n}
    [] k \in {"a", "_"} -> s.sure
    [] k = "I" /\ r.two = 1 -> IF <<>> \in {r.got, r.got2} THEN Eligible(v.inc) ELSE s.sure \ {r.got[1], r.got2[1]}
    [] k = "N" \/ (k = "F" /\ r.hit = 0) \/ (k = "I" /\ r.two = 0) -> IF r.got = <<>> THEN Eligible(v.inc) ELSE s.sure \ {r.got[1]}
    [] k = "F" -> {}
    [] k \in {"O", "C"} -> Eligible(v.inc)
RECURSIVE SpRun(_, _, _, _)
SpRun(s, ops, out, i) ==
  IF i > Len(ops) THEN i = Len(out) + 1
  ELSE IF i > Len(out) THEN FALSE
  ELSE LET v == TLCEval([inc |-> Shown(out[i].inc), act |-> Shown(out[i].act)]) IN
       /\ Len(out[i].inc) = Cardinality(DOMAIN v.inc) /\ Len(out[i].act) = Cardinality(DOMAIN v.act)
       /\ SpAnswer(s, ops[i], out[i], v)
       /\ SpRun(TLCEval([inc |-> v.inc, act |-> v.act, sure |-> SpSure(s, ops[i], out[i], v)]), ops, out, i + 1)
MatchSpool(a, r) == r.gone = 1 /\ SpRun(SpInit, a, r.out, 1)
MatchSpThr(a, r) == r = [once |-> a[1], bad |-> 0, left |-> 0]
=============================================================================
