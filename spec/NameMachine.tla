---------------------------- MODULE NameMachine ----------------------------
(* The decompressor as a machine over every small buffer: it reads only inside
   the buffer, terminates, follows only strictly backward pointers, and ends
   with what the declarative reading of the buffer says.                      *)
EXTENDS Names
CONSTANTS Alphabet, N
VARIABLES b, src, s

SmallMaxName == 7
SmallMaxLabel == 2
vars == <<b, src, s>>

Bufs == UNION {[1..n -> Alphabet] : n \in 1..N}
Init == /\ b \in Bufs
        /\ src \in 0..(Len(b) - 1)
        /\ s = NameInit(src)
Next == s.st = "run" /\ s' = NameStep(b, s) /\ UNCHANGED <<b, src>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* positions the next step reads *)
Reads == IF s.st # "run" \/ s.pos >= Len(b) THEN {}
         ELSE LET c == At(b, s.pos) IN
              {s.pos} \cup (IF c >= 192 THEN (IF s.pos + 1 < Len(b) THEN {s.pos + 1} ELSE {})
                            ELSE IF s'.out # s.out THEN s.pos..(s.pos + Len(s'.out) - Len(s.out) - 1) ELSE {})
InBounds == [][\A p \in Reads : p >= 0 /\ p < Len(b)]_vars

(* every continuing step either lengthens the output (bounded by MaxName) or
   leaves it alone and jumps to a strictly smaller position                   *)
Progress == [][s'.st # "run" \/ Len(s'.out) > Len(s.out) \/ (s'.out = s.out /\ s'.pos < s.pos)]_vars
Bounded == Len(s.out) <= MaxName
Terminates == <>(s.st # "run")

(* declarative reading: what positions lead to, ignoring direction of travel *)
IsLabelAt(p) == p < Len(b) /\ At(b, p) \in 1..MaxLabel /\ p + 1 + At(b, p) <= Len(b)
IsPtrAt(p) == p + 1 < Len(b) /\ At(b, p) >= 192 /\ (At(b, p) - 192) * 256 + At(b, p + 1) < p
IsRootAt(p) == p < Len(b) /\ At(b, p) = 0
NextPos(p) == IF IsLabelAt(p) THEN p + 1 + At(b, p) ELSE (At(b, p) - 192) * 256 + At(b, p + 1)
(* all octet strings denoted at p using at most k hops *)
RECURSIVE Den(_, _)
Den(p, k) ==
  IF k = 0 THEN {}
  ELSE IF IsRootAt(p) THEN {<<0>>}
  ELSE IF IsLabelAt(p) THEN {Slice(b, p, At(b, p) + 1) \o t : t \in Den(NextPos(p), k - 1)}
  ELSE IF IsPtrAt(p) THEN Den(NextPos(p), k - 1)
  ELSE {}
Denoted == {t \in Den(src, MaxName * Len(b)) : Len(t) <= MaxName}
Sound == s.st = "ok" => Denoted = {s.out}
Complete == (s.st # "run" /\ s.st # "ok") => Denoted = {}
Functional == s.st # "run" => Unpack(b, src) = (IF s.st = "ok" THEN Ok(s.out) ELSE Err(s.st))
Valid == s.st = "ok" => ValidName(s.out)

(* without pointers decompression is copying, and its extent is what skipping finds *)
NoPtr == \A i \in 1..Len(b) : b[i] < 192
PlainAgrees == (s.st # "run" /\ NoPtr) =>
   /\ Unpack(b, src) = CopyUname(b, src)
   /\ s.st = "ok" => /\ SkipFrom(b, src) = src + Len(s.out)
                     /\ LenUname(b, src) = Ok(Len(s.out))
                     /\ CountLabels(s.out) = Ok(Len(Labels(s.out)))
SkipBounded == SkipFrom(b, src) \in (src + 1)..Len(b)
=============================================================================
