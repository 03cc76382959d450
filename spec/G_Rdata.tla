------------------------------ MODULE G_Rdata ------------------------------
(* The small record data and texts of RdataLaws and ReadLaws, to be run in the code. *)
EXTENDS ReadLaws, Json, IOUtils
VARIABLE done
Cls(x) == IF Len(x) % 3 = 0 THEN {1, 3} ELSE {1}
Data(ty) == UNION {{<<ty, k, x>> : k \in Cls(x)} : x \in DataOf(ty)}
TextsOf(ty) == IF ty = 41 THEN {} ELSE {<<ty, 1, x>> : x \in Texts(ty)}
(* as they stand in a message whose question is at octet 12: names may point there *)
WireNames == {<<0>>, <<2, 65, 46, 0>>, <<192, 12>>, <<1, 90, 192, 14>>}
WireFew(k) == IF k = "name" THEN WireNames ELSE {CHOOSE x \in Few(k) : x # <<>>} \cup {CHOOSE x \in Few(k) : \A y \in Few(k) : Len(x) >= Len(y)}
RECURSIVE WireProducts(_)
WireProducts(fs) == IF fs = <<>> THEN {<<>>} ELSE {x \o y : x \in WireFew(Head(fs)), y \in WireProducts(Tail(fs))}
Named(ty) == Known(ty) /\ "name" \in {Fields(ty)[i] : i \in 1..Len(Fields(ty))}
WireOf(ty) == IF ~Named(ty) THEN {} ELSE {<<ty, 1, x>> : x \in LET w == WireProducts(Fields(ty)) IN w \cup UNION {Near(x) : x \in (IF Deep \/ Len(Fields(ty)) < 4 THEN w ELSE {CHOOSE y \in w : TRUE})}}
Cases == SetToSeq(UNION {CASE IOEnv.KIND = "data" -> Data(ty) [] IOEnv.KIND = "wire" -> WireOf(ty) [] OTHER -> TextsOf(ty) : ty \in Types})
GInit == /\ done = LET cs == TLCEval(Cases) IN ndJsonSerialize(IOEnv.OUT, [i \in 1..Len(cs) |-> [a |-> cs[i]]])
         /\ rt = 0 /\ rc = 0 /\ rd = <<>> /\ phase = 0 /\ txt = <<>>
GSpec == GInit /\ [][FALSE]_done
=============================================================================
