----------------------------- MODULE TextEvents -----------------------------
(* Record data and its presentation text, as events. *)
EXTENDS RdataText, MessageEvents

MatchRead(a, r) ==
  LET x == ReadText(a[3], a[1], a[2])
      right == r = [res |-> 0, out |-> x.out]
  IN CASE x.k = "yes" -> right
       [] x.k = "maybe" -> Refused(r) \/ right
       [] x.k = "no" -> Refused(r)
       [] OTHER -> Refused(r) \/ (r.res = 0 /\ Len(r.out) <= MaxRdata /\ ParserData(r.out, a[1], a[2]))
MatchTrip(a, r) ==
  RoundTrips(a[3], a[1], a[2]) => r.res = 0 /\ r.out = a[3] /\ r.text2 = r.text

TextMatch(e) ==
  CASE e.op = "s2rd" -> MatchRead(e.a, e.r)
    [] e.op = "rdtrip" -> MatchTrip(e.a, e.r)
    [] OTHER -> MessageMatch(e)
=============================================================================
