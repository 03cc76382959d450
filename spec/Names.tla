------------------------------- MODULE Names -------------------------------
(* Domain names: decompression, scanning, text, and the label-sequence algebra.
   Outcomes are records with field "res"; "ok" carries the result.            *)
EXTENDS Bytes

MaxName == 255
MaxLabel == 63

Ok(x) == [res |-> "ok", out |-> x]
Err(k) == [res |-> k, out |-> <<>>]

(* --------------------------- decompression machine ----------------------- *)
(* State of the decompressor: cursor, expanded octets so far, jumps taken.
   NameInit/NameStep are shared by the model-checked machine (NameMachine.tla)
   and the functional operator Unpack used for conformance.                   *)
NameInit(src) == [pos |-> src, out |-> <<>>, st |-> "run"]

NameStep(b, s) ==
  IF s.pos < 0 \/ s.pos >= Len(b) THEN [s EXCEPT !.st = "out_of_bounds"]
  ELSE LET c == At(b, s.pos) IN
    IF c = 0 THEN [s EXCEPT !.out = Append(s.out, 0), !.st = "ok", !.pos = s.pos + 1]
    ELSE IF c >= 192 THEN
      IF s.pos + 1 >= Len(b) THEN [s EXCEPT !.st = "out_of_bounds"]
      ELSE LET off == (c - 192) * 256 + At(b, s.pos + 1) IN
        IF off >= s.pos THEN [s EXCEPT !.st = "invalid_compression_pointer"]
        ELSE [s EXCEPT !.pos = off]
    ELSE IF c > MaxLabel THEN [s EXCEPT !.st = "invalid_length_octet"]
    ELSE IF Len(s.out) + 1 + c >= MaxName THEN [s EXCEPT !.st = "name_overflow"]
    ELSE IF s.pos + 1 + c > Len(b) THEN [s EXCEPT !.st = "out_of_bounds"]
    ELSE [s EXCEPT !.out = s.out \o Slice(b, s.pos, c + 1), !.pos = s.pos + 1 + c]

RECURSIVE NameRun(_, _)
NameRun(b, s) == IF s.st # "run" THEN s ELSE NameRun(b, NameStep(b, s))

Unpack(b, src) ==
  IF Len(b) = 0 \/ src >= Len(b) \/ src < 0 THEN Err("out_of_bounds")
  ELSE LET s == NameRun(b, NameInit(src))
       IN IF s.st = "ok" THEN Ok(s.out) ELSE Err(s.st)

(* ------------------------- uncompressed names ---------------------------- *)
RECURSIVE CopyRun(_, _, _)
CopyRun(b, pos, out) ==
  IF pos >= Len(b) THEN Err("out_of_bounds")
  ELSE LET c == At(b, pos) IN
    IF c = 0 THEN Ok(Append(out, 0))
    ELSE IF c > MaxLabel THEN Err("invalid_length_octet")
    ELSE IF Len(out) + 1 + c >= MaxName THEN Err("name_overflow")
    ELSE IF pos + 1 + c > Len(b) THEN Err("out_of_bounds")
    ELSE CopyRun(b, pos + 1 + c, out \o Slice(b, pos, c + 1))
CopyUname(b, src) ==
  IF Len(b) = 0 \/ src >= Len(b) THEN Err("out_of_bounds") ELSE CopyRun(b, src, <<>>)

(* position just after a possibly compressed name, never past the end *)
RECURSIVE SkipFrom(_, _)
SkipFrom(b, pos) ==
  IF pos >= Len(b) THEN Len(b)
  ELSE LET c == At(b, pos) IN
    IF c = 0 THEN pos + 1
    ELSE IF c >= 192 THEN MinOf(pos + 2, Len(b))
    ELSE SkipFrom(b, pos + 1 + c)

(* length of the uncompressed name starting at src, octets src.. being all there is *)
RECURSIVE LenRun(_, _, _)
LenRun(b, src, pos) ==
  IF pos >= Len(b) THEN Err("overflow")
  ELSE LET c == At(b, pos) IN
    IF c = 0 THEN (IF pos + 1 - src > MaxName THEN Err("name_len") ELSE Ok(pos + 1 - src))
    ELSE IF c > MaxLabel \/ pos + 1 + c > Len(b) THEN Err("invalid_length_octet")
    ELSE LenRun(b, src, pos + 1 + c)
LenUname(b, src) == IF src >= Len(b) THEN Err("overflow") ELSE LenRun(b, src, src)

RECURSIVE CountRun(_, _, _)
CountRun(b, pos, n) ==
  IF pos >= Len(b) THEN Err("name_overflow")
  ELSE LET c == At(b, pos) IN
    IF c = 0 THEN Ok(n)
    ELSE IF c > MaxLabel THEN Err("invalid_length_octet")
    ELSE IF pos + 1 + c > Len(b) THEN Err("name_overflow")
    ELSE CountRun(b, pos + 1 + c, n + 1)
CountLabels(b) == CountRun(b, 0, 0)

(* ---------------------------- label algebra ------------------------------ *)
(* labels of the complete uncompressed name at the start of b *)
RECURSIVE LabelsFrom(_, _)
LabelsFrom(b, pos) ==
  IF At(b, pos) = 0 THEN <<>>
  ELSE <<Slice(b, pos + 1, At(b, pos))>> \o LabelsFrom(b, pos + 1 + At(b, pos))
Labels(b) == LabelsFrom(b, 0)
NameOf(ls) == ConcatMap(LAMBDA l : <<Len(l)>> \o l, ls) \o <<0>>

(* a whole buffer that is one valid name *)
ValidName(b) == LET r == CopyUname(b, 0) IN r.res = "ok" /\ Len(r.out) = Len(b)
ReverseName(b) == NameOf(Reverse(Labels(b)))
ChopName(b) == IF b = <<0>> THEN b ELSE NameOf(Tail(Labels(b)))
ProperSuffix(p, s) == Len(p) < Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
IsSubdomain(b0, b1) == ProperSuffix(Labels(b1), Labels(b0))

(* ------------------------------- text ------------------------------------ *)
NameEsc == TLCEval([c \in Byte |->
   IF c = DOT \/ c = BSL THEN <<BSL, c>>
   ELSE IF c > 32 /\ c < 127 THEN <<c>>
   ELSE <<BSL>> \o Dec3(c)])
EscLabel(l) == ConcatMap(LAMBDA c : NameEsc[c], l)

(* Text and the announced length for any octets: labels are read until a zero
   octet or the end; a last label cut short prints what is there.             *)
RECURSIVE DomText(_, _, _, _)
DomText(b, pos, txt, n) ==
  IF pos >= Len(b) \/ At(b, pos) = 0
  THEN [text |-> IF n = 0 THEN Append(txt, DOT) ELSE txt, n |-> n + 1]
  ELSE LET c == At(b, pos)
           k == MinOf(c, Len(b) - pos - 1)
       IN DomText(b, pos + 1 + k, Append(txt \o EscLabel(Slice(b, pos + 1, k)), DOT), n + c + 1)
DomainToStr(b) == DomText(b, 0, <<>>, 0)
NameText(b) == DomainToStr(b).text

(* text to name *)
RECURSIVE S2N(_, _, _, _, _)
S2N(t, p, lab, labs, fold) ==
  (* p: next character (0-based); lab: current label; labs: finished labels *)
  IF p >= Len(t) THEN
    IF lab = <<>> THEN Ok(labs) ELSE Ok(Append(labs, lab))
  ELSE LET c == At(t, p) IN
    IF c = DOT THEN
      IF lab = <<>> THEN Err("parse_error") ELSE S2N(t, p + 1, <<>>, Append(labs, lab), fold)
    ELSE IF c = BSL THEN
      IF p + 1 >= Len(t) THEN Err("parse_error")
      ELSE IF ~IsDigit(At(t, p + 1)) THEN S2N(t, p + 2, Append(lab, At(t, p + 1)), labs, fold)
      ELSE IF p + 3 >= Len(t) THEN Err("parse_error")
      ELSE IF ~(IsDigit(At(t, p + 2)) /\ IsDigit(At(t, p + 3))) THEN Err("parse_error")
      ELSE LET v == DecValue(Slice(t, p + 1, 3)) IN
           IF v > 255 THEN Err("parse_error") ELSE S2N(t, p + 4, Append(lab, v), labs, fold)
    ELSE S2N(t, p + 1, Append(lab, IF fold THEN LowerByte(c) ELSE c), labs, fold)

StrToName(t, fold) ==
  IF t = <<>> \/ t = <<DOT>> THEN Ok(<<0>>)
  ELSE LET r == S2N(t, 0, <<>>, <<>>, fold) IN
    IF r.res # "ok" THEN r
    ELSE IF \E i \in 1..Len(r.out) : Len(r.out[i]) > MaxLabel THEN Err("name_overflow")
    ELSE LET n == NameOf(r.out) IN IF Len(n) > MaxName THEN Err("name_overflow") ELSE Ok(n)
=============================================================================
