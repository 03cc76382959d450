------------------------------ MODULE NameLaws ------------------------------
(* Laws of names as label sequences and of their text, over every small name
   and every small text.  One state per case.                                *)
EXTENDS Names
CONSTANTS LabelBytes, TextBytes, MaxLabs, MaxLab, MaxText
VARIABLES n, m, t, ph

SmallMaxName == 6
SmallMaxLabel == 2
LabelSet == UNION {[1..k -> LabelBytes] : k \in 1..MaxLab}
NameSet == {nm \in {NameOf(ls) : ls \in UNION {[1..k -> LabelSet] : k \in 0..MaxLabs}} : Len(nm) <= MaxName}
TextSet == UNION {[1..k -> TextBytes] : k \in 0..MaxText}

NameSetC == TLCEval(NameSet)
(* a name, then a second one; or a text, one character at a time *)
Init == n = <<0>> /\ m = <<0>> /\ t = <<>> /\ ph = "start"
Next == \/ /\ ph = "start" /\ ph' = "name" /\ n' \in NameSetC /\ UNCHANGED <<m, t>>
        \/ /\ ph = "name" /\ ph' = "pair" /\ m' \in NameSetC /\ UNCHANGED <<n, t>>
        \/ /\ ph \in {"start", "text"} /\ ph' = "text" /\ Len(t) < MaxText
           /\ \E c \in TextBytes : t' = Append(t, c)
           /\ UNCHANGED <<n, m>>
Spec == Init /\ [][Next]_<<n, m, t, ph>>

RoundTrip == StrToName(NameText(n), FALSE) = Ok(n)
FoldTrip == StrToName(NameText(n), TRUE).res = "ok"
RevRev == ReverseName(ReverseName(n)) = n /\ Len(ReverseName(n)) = Len(n)
RevCount == CountLabels(ReverseName(n)) = CountLabels(n)
Chop == IF n = <<0>> THEN ChopName(n) = n
        ELSE CountLabels(ChopName(n)).out = CountLabels(n).out - 1 /\ IsSubdomain(n, ChopName(n))
(* subdomain is a strict order, and holds exactly between a name and its chops *)
SubIrrefl == ~IsSubdomain(n, n)
SubAsym == IsSubdomain(n, m) => ~IsSubdomain(m, n)
RECURSIVE Chops(_)
Chops(x) == IF x = <<0>> THEN {} ELSE {ChopName(x)} \cup Chops(ChopName(x))
SubIsChop == IsSubdomain(n, m) <=> m \in Chops(n)
LowerIdem == Lower(Lower(n)) = Lower(n) /\ Len(Lower(n)) = Len(n)
(* accepted text always denotes a valid name, and printing it is a fixed point *)
TextValid == LET r == StrToName(t, FALSE) IN
   r.res = "ok" => /\ ValidName(r.out)
                   /\ StrToName(NameText(r.out), FALSE) = r
FoldAgrees == LET r == StrToName(t, FALSE)  f == StrToName(t, TRUE) IN
   /\ (r.res = "ok") = (f.res = "ok")
   /\ r.res = "ok" => Lower(f.out) = Lower(r.out)
=============================================================================
