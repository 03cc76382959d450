--------------------------- MODULE Base64Machine ---------------------------
(* The streaming encoder and decoder as machines that take one unit at a time
   and carry bits between calls: whatever was consumed so far, what they have
   put out (and would put out at the end) is the encoding of exactly that.    *)
EXTENDS Codecs
CONSTANTS Octets, Chars, MaxD, MaxT
VARIABLES mode, inp, out, step, carry
vars == <<mode, inp, out, step, carry>>
Init == mode \in {"enc", "dec"} /\ inp = <<>> /\ out = <<>> /\ step = 0 /\ carry = 0
C64(v) == B64Chars[v + 1]
Enc(x) ==
  CASE step = 0 -> out' = Append(out, C64(x \div 4)) /\ carry' = (x % 4) * 16 /\ step' = 1
    [] step = 1 -> out' = Append(out, C64(carry + x \div 16)) /\ carry' = (x % 16) * 4 /\ step' = 2
    [] OTHER -> out' = out \o <<C64(carry + x \div 64), C64(x % 64)>> /\ carry' = 0 /\ step' = 0
EndEnc == CASE step = 0 -> <<>> [] step = 1 -> <<C64(carry), 61, 61>> [] OTHER -> <<C64(carry), 61>>
Dec1(v) ==
  CASE step = 0 -> out' = out /\ carry' = v * 4 /\ step' = 1
    [] step = 1 -> out' = Append(out, carry + v \div 16) /\ carry' = (v % 16) * 16 /\ step' = 2
    [] step = 2 -> out' = Append(out, carry + v \div 4) /\ carry' = (v % 4) * 64 /\ step' = 3
    [] OTHER -> out' = Append(out, carry + v) /\ carry' = 0 /\ step' = 0
Next ==
  \/ mode = "enc" /\ Len(inp) < MaxD /\ \E x \in Octets : Enc(x) /\ inp' = Append(inp, x) /\ UNCHANGED mode
  \/ mode = "dec" /\ Len(inp) < MaxT /\ \E x \in Chars : inp' = Append(inp, x) /\ UNCHANGED mode
        /\ IF IsB64(x) THEN Dec1(B64Val[x]) ELSE UNCHANGED <<out, step, carry>>
Spec == Init /\ [][Next]_vars
Encodes == mode = "enc" => out \o EndEnc = B64(inp)
Decodes == mode = "dec" => out = UnB64(inp)
Small == carry \in 0..255
=============================================================================
