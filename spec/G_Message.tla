----------------------------- MODULE G_Message -----------------------------
(* Vectors: every small message of MessageMachine and what it parses into. *)
EXTENDS MessageMachine, MessageEvents, Json, IOUtils
VARIABLE done
N == atoi(IOEnv.N)
P(q, rs, sec, delta, cut) == [q |-> q, rs |-> rs, sec |-> sec, delta |-> delta, cut |-> cut]
SecsOf(n) == {f \in [1..n -> 2..4] : NonDecreasing(f)}
PlansOf(n, items) == {P(q, rs, sec, NoDelta, 0) : q \in Questions, rs \in [1..n -> items], sec \in SecsOf(n)}
Plain == UNION {PlansOf(n, IF n < 2 THEN SmallItems ELSE TinyItems) : n \in 0..N}
Cut == {[p EXCEPT !.cut = c] : p \in PlansOf(1, SmallItems), c \in 1..36} \cup {[p EXCEPT !.cut = c] : p \in PlansOf(0, {}), c \in 0..20}
Moved == {[p EXCEPT !.delta = d] : p \in UNION {PlansOf(n, TinyItems) : n \in 0..(N - 1)}, d \in Deltas}
Bytes1(p) == SubSeq(Octets(p), 1, MaxOf(0, Len(Octets(p)) - p.cut))
Fits(p) == \A k \in 1..4 : Nth(p)[k] + p.delta[k] >= 0
Bs == TLCEval(SetToSeq({Bytes1(p) : p \in {x \in Plain \cup Cut \cup Moved : Fits(x)}}))
V(x) == [op |-> "msg", a |-> <<x>>, r |-> LET m == Msg(x) IN IF m.ok THEN Dump(m) ELSE [res |-> -2]]
GInit == /\ done = LET bs == TLCEval(Bs) IN ndJsonSerialize(IOEnv.OUT, TLCEval([i \in 1..Len(bs) |-> V(bs[i])]))
         /\ b = <<>> /\ plan = <<>> /\ s = <<>> /\ sets = <<>>
GSpec == GInit /\ [][FALSE]_done
=============================================================================
