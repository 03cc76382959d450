------------------------------ MODULE G_Libmy ------------------------------
(* Vectors derived from the specification of the utility library. *)
EXTENDS LibmyEvents, Json, IOUtils
VARIABLE done
N == atoi(IOEnv.N)
SeqsUpTo(alpha, k) == SetToSeq(UNION {[1..n -> alpha] : n \in 0..k})
SeqsFrom(alpha, j, k) == SetToSeq(UNION {[1..n -> alpha] : n \in j..k})
V(op, a, r) == [op |-> op, a |-> a, r |-> r]
EmptyNtop == NoText
Ntop(af, a, cap) == LET t == AddrText(a) IN V("ntop", <<af, a, cap>>, [text |-> <<t>>, direct |-> <<t>>, back |-> <<a>>])
Groups == IF N <= 2 THEN {0, 1} ELSE {0, 1, 4095}
Quad == {0, 9, 10, 99, 100, 255}
AddrVecs ==
  LET ws == SetToSeq([1..8 -> Groups])  qs == SetToSeq([1..4 -> Quad]) IN
  [i \in 1..Len(ws) |-> Ntop(6, Concat([k \in 1..8 |-> U16Bytes(ws[i][k])]), 46)]
  \o [i \in 1..Len(qs) |-> Ntop(4, qs[i], 16)]
CodecVecs ==
  LET ds == SeqsUpTo({0, 1, 90, 128, 255}, N)
      ts == SeqsUpTo({48, 65, 97, 103, 86, 61}, N + 1)
      g64 == SelectSeq(ts, LAMBDA t : GoodB64(t))
      g32 == SelectSeq(ts, LAMBDA t : GoodB32(t))
      hs == SelectSeq(ts, LAMBDA t : \A i \in 1..Len(t) : t[i] # 86) IN
  [i \in 1..Len(ds) |-> V("b64e", <<ds[i]>>, [text |-> B64(ds[i])])]
  \o [i \in 1..Len(ds) |-> V("b64e", <<ds[i], 1, 1>>, [text |-> B64(ds[i])])]
  \o [i \in 1..Len(ds) |-> V("b32e", <<ds[i], 2 * Len(ds[i]) + 2>>, [text |-> B32(ds[i])])]
  \o [i \in 1..Len(g64) |-> V("b64d", <<g64[i]>>, [out |-> UnB64(g64[i])])]
  \o [i \in 1..Len(g64) |-> V("b64d", <<g64[i], 1, 2>>, [out |-> UnB64(g64[i])])]
  \o [i \in 1..Len(g32) |-> V("b32d", <<g32[i], Len(g32[i]) + 1>>, [out |-> <<UnB32(g32[i])>>])]
  \o [i \in 1..Len(hs) |-> V("hexd", <<hs[i]>>,
        [out |-> LET t == hs[i] IN IF t # <<>> /\ (Len(t) % 2) = 0 /\ \A k \in 1..Len(t) : IsHexDigit(t[k])
                 THEN <<[k \in 1..(Len(t) \div 2) |-> HexVal(t[2 * k - 1]) * 16 + HexVal(t[2 * k])]>> ELSE <<>>])]
(* histories: every sequence of up to N operations *)
HeapOps == {<<0, 0>>, <<0, 1>>, <<0, 2>>, <<1, 0>>, <<2, 1>>, <<3, 0>>, <<4, 1>>}
HeapVecs == LET hs == SeqsFrom(HeapOps, N, N) IN [i \in 1..Len(hs) |-> V("heap", <<Concat(hs[i])>>, <<>>)]
UbufOps == {<<97, 120>>, S("AyZ") , <<65, 0>>, <<114, 0, 3>>, <<99, 0, 1>>, <<115, 120>>, <<122>>, S("Eq"), <<100>>, S("Sb"), <<116>>, <<67>>, S("f%")}
VecVecs ==
  LET us == SeqsFrom(UbufOps, 1, N) IN
  [i \in 1..Len(us) |-> V("ubuf", <<i % 3>> \o us[i], [st |-> SeqRun(<<>>, us[i], 1, 1), gone |-> 1])]
FsOps == {S("wa"), <<119, 97, 10, 98, 10>>, <<110, 98>>, <<119, 97, 10, 97>>, <<119>>, S("Wa"), <<78, 98>>, <<120>>, S("+a"), S("-a"), S("-b"), S("F")}
RECURSIVE Reloads(_)
Reloads(h) == IF h = <<>> THEN <<>> ELSE <<h[1], <<82>>>> \o Reloads(Tail(h))
FsVecs == LET hs == SeqsFrom(FsOps, N, N) IN
  [i \in 1..Len(hs) |-> V("fileset", <<S("+b")>> \o Reloads(hs[i]), <<>>)]
  \o [i \in 1..Len(hs) |-> V("fileset", <<S("+a"), S("+b")>> \o hs[i] \o <<<<82>>, <<82>>>>, <<>>)]
ReplVecs ==
  LET ts == SeqsUpTo({97, 98}, N)
      os == SeqsFrom({97, 98}, 1, 2)
      ns == <<<<>>, <<97>>, <<98, 97>>, <<99, 99, 99>>>>
  IN Concat([i \in 1..Len(ts) |-> Concat([j \in 1..Len(os) |-> [k \in 1..4 |->
       V("replace", <<ts[i], os[j], ns[k]>>, [text |-> Replaced(ts[i], os[j], ns[k])])]])])
Vecs ==
  CASE IOEnv.KIND = "addr" -> AddrVecs
    [] IOEnv.KIND = "codec" -> CodecVecs
    [] IOEnv.KIND = "heap" -> HeapVecs
    [] IOEnv.KIND = "vec" -> VecVecs
    [] IOEnv.KIND = "fileset" -> FsVecs
    [] IOEnv.KIND = "replace" -> ReplVecs
Init == done = ndJsonSerialize(IOEnv.OUT, Vecs)
Spec == Init /\ [][FALSE]_done
=============================================================================
