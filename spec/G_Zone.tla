------------------------------- MODULE G_Zone -------------------------------
(* Every file of up to N lines, with and without its last end of line. *)
EXTENDS ZoneEvents, Json, IOUtils
VARIABLE done
N == atoi(IOEnv.N)
GLines == <<S("$ORIGIN x.y."), S("$TTL 5"), S("; note"), S("@ SOA 7"), S("z. SOA 9"), S("b SOA 4294967295"), S("a A 1"), S("a.x.y. 6 A 2"), S(" A 3"), S("?"), <<>>>>
GFiles == SetToSeq(UNION {[1..k -> 1..Len(GLines)] : k \in 0..N})
GText(f, ended) == Concat([i \in 1..Len(f) |-> GLines[f[i]] \o (IF ended \/ i < Len(f) THEN <<NL>> ELSE <<>>)])
GVec(f, ended) == [op |-> "zone", a |-> <<0, S("zone"), GText(f, ended), S("cdrsrcrrrdrsc")>>, r |-> <<>>]
Vecs == [i \in 1..(2 * Len(GFiles)) |-> GVec(GFiles[((i - 1) \div 2) + 1], i % 2 = 1)]
Init == done = ndJsonSerialize(IOEnv.OUT, Vecs)
Spec == Init /\ [][FALSE]_done
=============================================================================
