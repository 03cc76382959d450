--------------------------- MODULE MessageMachine ---------------------------
(* The message parser as a machine, over every small message put together from
   a few records, with section counts that may be wrong and an end that may be
   cut.  Beside it the grouping of records into sets, done record by record as
   they are met.  What comes out is what was put in.                          *)
EXTENDS Message
CONSTANTS R,          \* records after the question
          Items,      \* what a record may be
          Cuts        \* octets that may be missing at the end
VARIABLES b,          \* the octets
          plan,       \* what they were made of
          s,          \* the parser
          sets        \* the sets of each section so far
vars == <<b, plan, s, sets>>

(* owners; the pointer leads to the first name of the message *)
Root == <<0>>  LowerA == <<1, 97, 0>>  UpperA == <<1, 65, 0>>  Ptr == <<192, 12>>
I(o, t, c, ttl, d) == [o |-> o, t |-> t, c |-> c, ttl |-> ttl, d |-> d]
SmallItems ==
  {I(o, 1, 1, ttl, <<9, 9, 9, 9>>) : o \in {LowerA, UpperA, Ptr}, ttl \in {<<0, 7>>, <<32768, 0>>}}
  \cup {I(LowerA, 1, 1, <<0, 1>>, <<9, 9, 9>>), I(LowerA, 1, 3, <<0, 1>>, <<9, 9, 9>>), I(UpperA, 2, 1, <<0, 1>>, Ptr),
        I(LowerA, 300, 1, <<0, 1>>, <<>>), I(Root, TOpt, 512, <<256, 32768>>, <<>>), I(Root, TOpt, 1232, <<4095, 1>>, <<0, 3, 0, 0>>)}
TinyItems == {i \in SmallItems : i.o # Ptr /\ i.ttl # <<32768, 0>>} \cup {I(Ptr, 1, 1, <<32768, 0>>, <<9, 9, 9, 9>>)}
Questions == {<<>>, <<I(UpperA, 2, 1, <<0, 0>>, <<>>)>>, <<I(Root, TOpt, 1, <<0, 0>>, <<>>)>>}
NoDelta == <<0, 0, 0, 0>>
Deltas == {NoDelta} \cup {[NoDelta EXCEPT ![k] = d] : k \in 1..4, d \in {-1, 1}}

QBytes(q) == q.o \o U16Bytes(q.t) \o U16Bytes(q.c)
RBytes(x) == QBytes(x) \o U32Bytes(x.ttl) \o U16Bytes(Len(x.d)) \o x.d
Nth(p) == [k \in 1..4 |-> IF k = 1 THEN Len(p.q) ELSE Cardinality({i \in 1..Len(p.rs) : p.sec[i] = k})]
Octets(p) == <<18, 52, 128, 2>> \o ConcatMap(LAMBDA n : U16Bytes(n), [k \in 1..4 |-> Nth(p)[k] + p.delta[k]])
             \o ConcatMap(QBytes, p.q) \o ConcatMap(RBytes, p.rs)
NonDecreasing(f) == \A i \in 1..(Len(f) - 1) : f[i] <= f[i + 1]

Init == /\ \E n \in 0..R : \E rs \in [1..n -> Items], sec \in {f \in [1..n -> 2..4] : NonDecreasing(f)},
                             q \in Questions, delta \in Deltas, cut \in Cuts :
             /\ plan = [q |-> q, rs |-> rs, sec |-> sec, delta |-> delta, cut |-> cut]
             /\ delta # NoDelta => cut = 0
             /\ \A k \in 1..4 : Nth(plan)[k] + delta[k] >= 0
             /\ b = SubSeq(Octets(plan), 1, MaxOf(0, Len(Octets(plan)) - cut))
        /\ s = MsgInit(b)
        /\ sets = <<<<>>, <<>>, <<>>, <<>>>>

(* records a step reported, in their section *)
Step == LET t == MsgStep(b, s) IN
  /\ s.st = "run" /\ s' = t /\ UNCHANGED <<b, plan>>
  /\ sets' = IF t.st = "bad" \/ t.rrs = s.rrs THEN sets
             ELSE [sets EXCEPT ![s.sec] = IF s.sec = Question THEN t.rrs[1] ELSE AddTo(@, t.rrs[s.sec][Len(t.rrs[s.sec])])]
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ------------------------------ the machine ------------------------------ *)
Terminates == <>(s.st # "run")
Inside == s.st = "run" => s.pos \in HeaderLen..Len(b)
Progress == [][s'.st # "run" \/ s'.pos > s.pos \/ (s'.pos = s.pos /\ s'.sec > s.sec)]_vars
Taken(k) == Len(s.rrs[k])
(* each section reports no more than is declared; fewer only where the one OPT
   was taken out or the message ends on a record boundary                      *)
Accounts == s.st # "bad" =>
  /\ \A k \in 1..4 : Taken(k) <= Count(b, k)
  /\ s.st = "ok" => LET missing == Count(b, 1) + Count(b, 2) + Count(b, 3) + Count(b, 4) - (Taken(1) + Taken(2) + Taken(3) + Taken(4)) IN
       missing = Len(s.edns) \/ s.pos = Len(b)

(* ----------------------------- what was put in ---------------------------- *)
Unptr(o) == IF o # Ptr THEN o ELSE IF plan.q # <<>> THEN plan.q[1].o ELSE plan.rs[1].o
BadItem(i) == LET x == plan.rs[i] IN
  \/ (x.t = 1 /\ x.c = 1 /\ Len(x.d) # 4)
  \/ (plan.q = <<>> /\ plan.rs[1].o = Ptr /\ (x.o = Ptr \/ x.d = Ptr))       \* the pointer leads to itself
RrOf(x) == [n |-> Unptr(x.o), t |-> x.t, c |-> x.c, ttl |-> x.ttl, d |-> <<IF x.d = Ptr THEN Unptr(Ptr) ELSE x.d>>]
Opts(n) == {i \in 1..n : plan.rs[i].t = TOpt}
FirstOpt(n) == IF Opts(n) = {} THEN 0 ELSE CHOOSE i \in Opts(n) : \A j \in Opts(n) : i <= j
WantRrs(n) == [k \in 1..4 |->
   IF k = 1 THEN [i \in 1..Len(plan.q) |-> [n |-> plan.q[i].o, t |-> plan.q[i].t, c |-> plan.q[i].c, ttl |-> <<0, 0>>, d |-> <<>>]]
   ELSE LET is == SelectSeq([i \in 1..n |-> i], LAMBDA i : plan.sec[i] = k /\ i # FirstOpt(n)) IN [j \in 1..Len(is) |-> RrOf(plan.rs[is[j]])]]
WantEdns(n) == IF FirstOpt(n) = 0 THEN <<>> ELSE LET x == plan.rs[FirstOpt(n)] IN
   <<[v |-> x.ttl[1] % 256, f |-> x.ttl[2], s |-> x.c, o |-> <<x.d>>]>>
WantRcode(n) == 2 + (IF FirstOpt(n) = 0 THEN 0 ELSE 16 * (plan.rs[FirstOpt(n)].ttl[1] \div 256))
RECURSIVE EndAt(_)
EndAt(n) == IF n = 0 THEN HeaderLen + Len(ConcatMap(QBytes, plan.q)) ELSE EndAt(n - 1) + Len(RBytes(plan.rs[n]))
(* the records wholly there, when the cut is on a boundary; -1 when the question is gone *)
Whole == LET ns == {n \in 0..Len(plan.rs) : EndAt(n) = Len(b)} IN IF ns = {} THEN -1 ELSE CHOOSE n \in ns : TRUE
Faithful == (s.st # "run" /\ plan.delta = NoDelta /\ (Whole >= 0 \/ Len(b) # HeaderLen)) =>
  IF Whole >= 0 /\ \A i \in 1..Whole : ~BadItem(i)
  THEN s.st = "ok" /\ s.rrs = WantRrs(Whole) /\ s.edns = WantEdns(Whole) /\ s.rcode = WantRcode(Whole)
  ELSE s.st = "bad"
(* nothing after the counted records is read, and nothing before them changes *)
Tailless == (s.st = "ok" /\ s.sec > 4 /\ plan.cut = 0) => MsgRun(SubSeq(b, 1, s.pos), MsgInit(SubSeq(b, 1, s.pos))) = s
Agrees == s.st # "run" => Msg(b).ok = (s.st = "ok")

(* -------------------------------- grouping -------------------------------- *)
Done == s.st = "ok"
Refines == Done => \A k \in 1..4 : sets[k] = Group(s.rrs[k], k)
SameKey(x, y) == x.t = y.t /\ x.c = y.c /\ Lower(x.n) = Lower(y.n)
Distinct == Done => \A k \in 2..4 : \A i, j \in 1..Len(sets[k]) : SameKey(sets[k][i], sets[k][j]) => i = j
(* every record's data is in the set of its key, in the order met; the set bears
   the first one's owner and the least lifetime                               *)
Members(k, x) == SelectSeq(s.rrs[k], LAMBDA rr : SameKey(rr, x))
Partition == Done => \A k \in 2..4 :
  /\ \A i \in 1..Len(s.rrs[k]) : \E j \in 1..Len(sets[k]) : SameKey(s.rrs[k][i], sets[k][j])
  /\ \A j \in 1..Len(sets[k]) : LET m == Members(k, sets[k][j]) IN
       /\ m # <<>> /\ sets[k][j].n = m[1].n
       /\ sets[k][j].d = [i \in 1..Len(m) |-> m[i].d[1]]
       /\ \A i \in 1..Len(m) : ~U32Less(m[i].ttl, sets[k][j].ttl)
       /\ \E i \in 1..Len(m) : m[i].ttl = sets[k][j].ttl
FirstMet == Done => \A k \in 2..4 : \A i, j \in 1..Len(sets[k]) : i < j =>
  LET At1(x) == CHOOSE p \in 1..Len(s.rrs[k]) : SameKey(s.rrs[k][p], x) /\ \A q \in 1..(p - 1) : ~SameKey(s.rrs[k][q], x)
  IN At1(sets[k][i]) < At1(sets[k][j])
Questions1 == Done => sets[1] = s.rrs[1]
=============================================================================
