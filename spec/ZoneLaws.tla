------------------------------ MODULE ZoneLaws ------------------------------
(* What users of the reader rely on: the records come once each, in the order
   written; lines that are no records change nothing but what later lines leave
   out; writing out what a line leaves out changes nothing; a longer file
   hands out first what the shorter one does.                                *)
EXTENDS Zone
CONSTANTS Most
VARIABLES file
LOrigin == S("$ORIGIN x.y.")
LTtl == S("$TTL 5")
LNote == S("; note")
LSoa1 == S("@ SOA 7")
LSoa2 == S("z. SOA 9")
LShort == S("a A 1")
LLong == S("a.x.y. 6 A 2")
LSame == S(" A 3")
LBad == S("?")
LShort2 == S("a.x.y. A 1")
LSoa3 == S("x.y. SOA 7")
Lines == {LOrigin, LTtl, LNote, LSoa1, LSoa2, LShort, LLong, LSame, LBad}
Files == UNION {[1..k -> Lines] : k \in 0..Most}
Init == file \in Files
Spec == Init /\ [][FALSE]_file
Reads(f) == Script(f, [i \in 1..(Len(f) + 2) |-> 114])
LOCAL Kind(x) == DecValue(x[1])
LOCAL IsRecord(x) == x # ANYRES /\ Kind(x) \in {1, 3}
LOCAL SoaLine(l) == l \in {LSoa1, LSoa2}
LOCAL RecordLine(l) == l \notin {LOrigin, LTtl, LNote, LBad}

LOCAL SecondSoa(recs) == LET k == SelectInSeq(Tail(recs), SoaLine) IN IF k = 0 THEN 0 ELSE k + 1
OpensAtTheSoa == Reads(file).ok <=>
  \E k \in 1..Len(file) : SoaLine(file[k]) /\ \A i \in 1..(k - 1) : file[i] \in {LOrigin, LTtl, LNote}
(* as many as there are up to the second SOA, with the values in their order *)
EachOnceInOrder == LET x == Reads(file) IN x.ok =>
  LET recs == SelectSeq(file, RecordLine)
      second == SecondSoa(recs)
      upto == IF second = 0 THEN recs ELSE SubSeq(recs, 1, second - 1)
      got == SelectSeq(x.out, IsRecord)
  IN /\ Len(got) = Len(upto)
     /\ \A i \in 1..Len(got) : got[i][4] = <<upto[i][Len(upto[i])]>>
ErrorsAreSaid == LET x == Reads(file) IN x.ok /\ ~(\E i \in 1..Len(x.out) : x.out[i] = ANYRES) =>
  Len(SelectSeq(x.out, LAMBDA r : Kind(r) = 2)) = Len(SelectSeq(file, LAMBDA l : l = LBad))
NotesAreNothing == LET x == Reads(file)  y == Reads(SelectSeq(file, LAMBDA l : l # LNote)) IN
  x.ok = y.ok /\ SubSeq(x.out, 1, Len(y.out)) = y.out
LongerAgrees == \A k \in 0..Len(file) :
  LET x == Reads(SubSeq(file, 1, k)).out  y == Reads(file).out
      n == LET e == SelectInSeq(x, LAMBDA r : r = ANYRES \/ Kind(r) = 0) IN IF e = 0 THEN Len(x) ELSE e - 1
  IN n <= Len(y) /\ SubSeq(y, 1, n) = SubSeq(x, 1, n)
(* after $ORIGIN x.y. the short name is the long one *)
ShortIsLong == file # <<>> /\ file[1] = LOrigin =>
  Reads(file) = Reads([i \in 1..Len(file) |-> IF file[i] = LShort THEN LShort2 ELSE IF file[i] = LSoa1 THEN LSoa3 ELSE file[i]])
CountIsHanded == LET calls == [i \in 1..(2 * Len(file) + 4) |-> IF i % 2 = 1 THEN 114 ELSE 99]
                     x == Script(file, calls) IN
  x.ok => \A i \in 1..Len(x.out) : i % 2 = 0 /\ x.out[i] # ANYRES =>
    DecValue(x.out[i][2]) = Len(SelectSeq(SubSeq(x.out, 1, i), IsRecord))
=============================================================================
