------------------------------ MODULE G_Names ------------------------------
(* Vectors derived from the specification: every small case and what must come
   back.  KIND selects the family, N its size.                                *)
EXTENDS NameEvents, Json, IOUtils
VARIABLE done
N == atoi(IOEnv.N)
BufsOf(alpha, k) == SetToSeq(UNION {[1..n -> alpha] : n \in 0..k})
WireAlpha == {0, 1, 2, 64, 192, 97}
V(op, a) == [op |-> op, a |-> a, r |-> Det(op, a)]
Positional(op, bs) == Concat([i \in 1..Len(bs) |-> [p \in 1..(Len(bs[i]) + 1) |-> V(op, <<bs[i], p - 1>>)]])
TextAlpha == {97, 65, 46, 92, 48, 50, 53, 200}
Refuse == [res |-> -2]
Vecs ==
  CASE IOEnv.KIND = "unpack" -> Positional("unpack", BufsOf(WireAlpha, N))
    [] IOEnv.KIND = "scan" -> LET bs == BufsOf(WireAlpha, N) IN
         Positional("copyu", bs) \o Positional("skip", bs) \o Positional("lenu", bs)
         \o [i \in 1..Len(bs) |-> V("nlabels", <<bs[i]>>)] \o [i \in 1..Len(bs) |-> V("d2s", <<bs[i]>>)]
    [] IOEnv.KIND = "text" -> LET ts == BufsOf(TextAlpha, N) IN
         Concat([i \in 1..Len(ts) |-> [f \in 1..2 |->
            LET x == StrToName(ts[i], f = 1) IN
            [op |-> "s2n", a |-> <<ts[i], f - 1>>, r |-> IF x.res = "ok" THEN [res |-> 0, out |-> x.out] ELSE Refuse]]])
Init == done = ndJsonSerialize(IOEnv.OUT, Vecs)
Spec == Init /\ [][FALSE]_done
=============================================================================
