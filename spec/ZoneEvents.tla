----------------------------- MODULE ZoneEvents -----------------------------
EXTENDS Zone
(* how the file is kept: 0 plain, 1 compressed, 2 missing, 3 plain under the name of a compressed one, 4 a directory *)
ZoneMatch(e) ==
  LET a == e.a
      r == e.r
      x == IF a[1] \in {0, 1} THEN Script(FileLines(a[3]), a[4]) ELSE [ok |-> FALSE, out |-> <<>>]
  IN /\ e.op = "zone"
     /\ r.gone = 1 /\ r.kept = 0 /\ r.others = 0
     /\ r.open = IF x.ok THEN 1 ELSE 0
     /\ Len(r.got) = Len(x.out)
     /\ \A i \in 1..Len(x.out) : x.out[i] = ANYRES \/ x.out[i] = r.got[i]
=============================================================================
