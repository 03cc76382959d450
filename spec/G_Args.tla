------------------------------- MODULE G_Args -------------------------------
(* Every line of up to N words, over tables of each shape. *)
EXTENDS ArgEvents, Json, IOUtils
VARIABLE done
N == atoi(IOEnv.N)
B(c, ty, fl, nm) == <<c, ty, fl>> \o nm
GTables ==
  << << B(97, ArgBool, 8, S("all")), B(102, ArgText, 8, S("file")), B(110, ArgInt, 1, <<>>), B(0, ArgDouble, 8, S("far")) >>,
     << B(97, ArgIncr, 8, S("all")), B(OR, 0, 0, <<>>), B(102, ArgText, 9, S("file")), B(OR, 0, 0, <<>>), B(110, ArgInt, 2, <<>>), B(MAND, ArgText, 0, <<>>) >>,
     << B(97, ArgBoolIntNeg, 0, <<>>), B(XOR, 0, 0, <<>>), B(102, ArgText, 8, S("al")), B(XOR, 0, 0, <<>>), B(110, ArgShort, 8, S("all")), B(MAYBE, ArgText, 1, <<>>) >>,
     << B(MAND, ArgChar, 0, <<>>), B(MAND, ArgSize, 1, <<>>) >>, << B(MAYBE, ArgHex, 0, <<>>), B(53, ArgBool, 0, <<>>), B(MAYBE, ArgText, 0, <<>>), B(97, ArgLong, 0, <<>>) >> >>
GWords == <<S("-a"), S("-f"), S("-n"), S("-an"), S("-nf=v"), S("--all"), S("--fi"), S("--al=no"), S("w"), S("-5"), S("--"), S("--argv-file=F"), S("--argv-f"), S("-z"), S("-"), S("--h"), S("-a=2")>>
GLines == SetToSeq(UNION {[1..k -> {GWords[i] : i \in 1..Len(GWords)}] : k \in 0..N})
GVec(t, f, ws) == [op |-> "args", a |-> <<f, 0, S("-a") \o <<NL>> \o S("-") \o <<NL>>, S("x"), S("-a"), <<1, 44, 1, 44>>, Len(t)>> \o t \o ws, r |-> <<>>]
GFlags == <<5, 4, 7, 1, 21, 29>>
Vecs == Concat([i \in 1..Len(GTables) |-> Concat([f \in 1..Len(GFlags) |-> [k \in 1..Len(GLines) |-> GVec(GTables[i], GFlags[f], GLines[k])]])])
Init == done = ndJsonSerialize(IOEnv.OUT, Vecs)
Spec == Init /\ [][FALSE]_done
=============================================================================
