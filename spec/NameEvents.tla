----------------------------- MODULE NameEvents -----------------------------
(* What each name function may return, as events {op, a, r}. *)
EXTENDS Names

ResCode == TLCEval([ok |-> 0, failure |-> 1, invalid_compression_pointer |-> 2, invalid_length_octet |-> 3,
  invalid_opcode |-> 4, invalid_rcode |-> 5, len |-> 6, malloc |-> 7, name_len |-> 8, name_overflow |-> 9,
  out_of_bounds |-> 10, overflow |-> 11, parse_error |-> 12, qdcount |-> 13, unknown_opcode |-> 14,
  unknown_rcode |-> 15])
Code(k) == ResCode[k]
Refused(r) == r.res \in 1..15

NameResult(x) == IF x.res = "ok" THEN [res |-> 0, out |-> x.out, sz |-> Len(x.out)] ELSE [res |-> Code(x.res)]
NumResult(x, f) == IF x.res = "ok" THEN [res |-> 0] @@ (f :> x.out) ELSE [res |-> Code(x.res)]

(* a name said to start before the message does is not in it *)
Within(F(_, _), a) == IF a[3] < a[2] THEN Err("out_of_bounds") ELSE F(SubSeq(a[1], a[2] + 1, Len(a[1])), a[3] - a[2])

Det(op, a) ==    \* the one possible result
  CASE op = "unpack" -> NameResult(Unpack(a[1], a[2]))
    [] op = "copyu"  -> NameResult(CopyUname(a[1], a[2]))
    [] op = "unpackm" -> NameResult(Within(Unpack, a))
    [] op = "copyum" -> NameResult(Within(CopyUname, a))
    [] op = "skip"   -> LET q == SkipFrom(a[1], a[2]) IN [n |-> q - a[2], at |-> q]
    [] op = "lenu"   -> NumResult(LenUname(a[1], a[2]), "sz")
    [] op = "nlabels" -> NumResult(CountLabels(a[1]), "n")
    [] op = "d2s"    -> LET d == DomainToStr(a[1]) IN [n |-> d.n, text |-> d.text]
    [] op = "down"   -> [out |-> Lower(a[1])]

NameMatch(e) ==
  LET a == e.a
      r == e.r
  IN
  CASE e.op = "s2n" ->
         LET x == StrToName(a[1], a[2] = 0) IN
         IF x.res = "ok" THEN r = [res |-> 0, out |-> x.out] ELSE Refused(r)
    [] e.op = "nametrip" ->       \* a valid name prints, and parses back to itself
         LET d == DomainToStr(a[1]) IN
         /\ r.text = d.text /\ r.n = d.n
         /\ r.case = <<a[1]>>
         /\ r.fold = <<StrToName(d.text, TRUE).out>>
    [] e.op = "rev" ->
         IF ValidName(a[1]) THEN r = [res |-> 0, out |-> ReverseName(a[1])]
         ELSE IF CountLabels(a[1]).res = "name_overflow" THEN Refused(r)
         ELSE TRUE                       \* a reserved length octet or octets after the root: only safety
    [] e.op = "chop" ->
         IF ValidName(a[1]) THEN
           r = IF a[1] = <<0>> THEN [res |-> 0, off |-> 0, len |-> 1]
               ELSE [res |-> 0, off |-> At(a[1], 0) + 1, len |-> Len(ChopName(a[1]))]
         ELSE IF At(a[1], 0) > Len(a[1]) - 1 THEN Refused(r)
         ELSE TRUE
    [] e.op = "sub" ->
         IF ValidName(a[1]) /\ ValidName(a[2])
         THEN r = [res |-> 0, v |-> IF IsSubdomain(a[1], a[2]) THEN 1 ELSE 0]
         ELSE IF CountLabels(a[1]).res # "ok" \/ CountLabels(a[2]).res # "ok" THEN Refused(r)
         ELSE TRUE
    [] OTHER -> r = Det(e.op, a)
=============================================================================
