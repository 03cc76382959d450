------------------------------- MODULE Bytes -------------------------------
(* Octet strings are sequences over 0..255.  Text is an octet string too; the
   operator S turns a TLA+ string literal into one.                          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Byte == 0..255
Bytes == Seq(Byte)

(* 0-based access, as wire formats are specified. *)
At(b, p) == b[p + 1]
Slice(b, p, n) == SubSeq(b, p + 1, p + n)
From(b, p) == SubSeq(b, p + 1, Len(b))

U16(b, p) == At(b, p) * 256 + At(b, p + 1)
(* 32-bit quantities are pairs of 16-bit halves: TLC integers are 32-bit signed. *)
U32(b, p) == <<U16(b, p), U16(b, p + 2)>>
U32Less(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
U16Bytes(n) == <<n \div 256, n % 256>>
U32Bytes(x) == U16Bytes(x[1]) \o U16Bytes(x[2])

RECURSIVE CatRange(_, _, _)
CatRange(ss, i, j) == IF i > j THEN <<>> ELSE IF i = j THEN ss[i]
  ELSE LET m == (i + j) \div 2 IN CatRange(ss, i, m) \o CatRange(ss, m + 1, j)
Concat(ss) == CatRange(ss, 1, Len(ss))
MapSeq(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
ConcatMap(f(_), s) == Concat([i \in 1..Len(s) |-> f(s[i])])
Join(ss, sep) == Concat([i \in 1..Len(ss) |-> IF i = 1 THEN ss[i] ELSE sep \o ss[i]])
Repeat(x, n) == [i \in 1..n |-> x]
MinOf(x, y) == IF x < y THEN x ELSE y
MaxOf(x, y) == IF x > y THEN x ELSE y

(* ------------------------------ characters ------------------------------ *)
PrintableChars == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
OneChar(i) == SubSeq(PrintableChars, i, i)
Ord == TLCEval([c \in {OneChar(i) : i \in 1..95} |-> 31 + (CHOOSE i \in 1..95 : OneChar(i) = c)])
S(str) == TLCEval([i \in 1..Len(str) |-> Ord[SubSeq(str, i, i)]])

SP == 32
NL == 10
DQ == 34
BSL == 92
DOT == 46
COMMA == 44
IsDigit(c) == c >= 48 /\ c <= 57
IsUpper(c) == c >= 65 /\ c <= 90
IsLowerC(c) == c >= 97 /\ c <= 122
IsHexDigit(c) == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
(* the C locale's white space: space and 9..13 *)
IsSpace(c) == c = 32 \/ (c >= 9 /\ c <= 13)
IsPrint(c) == c >= 32 /\ c <= 126
LowerByte(c) == IF IsUpper(c) THEN c + 32 ELSE c
LowerTab == TLCEval([c \in Byte |-> LowerByte(c)])
Lower(b) == [i \in 1..Len(b) |-> LowerTab[b[i]]]

(* ------------------------------- numbers -------------------------------- *)
HexL == TLCEval(<<48,49,50,51,52,53,54,55,56,57,97,98,99,100,101,102>>)
HexU == TLCEval(<<48,49,50,51,52,53,54,55,56,57,65,66,67,68,69,70>>)
Hex2L(c) == <<HexL[c \div 16 + 1], HexL[(c % 16) + 1]>>
Hex2U(c) == <<HexU[c \div 16 + 1], HexU[(c % 16) + 1]>>
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55

RECURSIVE DecDigits(_)
DecDigits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(DecDigits(n \div 10), 48 + (n % 10))
ByteDec == TLCEval([n \in Byte |-> DecDigits(n)])
Dec(n) == IF n < 256 THEN ByteDec[n] ELSE DecDigits(n)
Dec3(n) == <<48 + n \div 100, 48 + ((n \div 10) % 10), 48 + (n % 10)>>

(* decimal of a 32-bit pair by schoolbook division *)
RECURSIVE Dec32(_)
Dec32(x) ==
  IF x[1] = 0 THEN DecDigits(x[2])
  ELSE LET q1 == x[1] \div 10
           l  == (x[1] % 10) * 65536 + x[2]
       IN Append(Dec32(<<q1, l \div 10>>), 48 + (l % 10))

(* decimal text to a value, saturating at "too big"; digits only *)
BIG == 1000000000
DecValue(ds) == FoldLeft(LAMBDA v, d : IF v >= 100000000 THEN BIG ELSE v * 10 + (d - 48), 0, ds)

(* value of decimal digits as a 32-bit pair, or <<-1,-1>> when out of range *)
DecValue32(ds) ==
  FoldLeft(LAMBDA v, d :
     IF v[1] = -1 THEN v
     ELSE LET l == v[2] * 10 + (d - 48)
              h == v[1] * 10 + l \div 65536
          IN IF h > 65535 THEN <<-1, -1>> ELSE <<h, l % 65536>>,
     <<0, 0>>, ds)

StripZeros(ds) == LET nz == {i \in 1..Len(ds) : ds[i] # 48}
                  IN IF nz = {} THEN <<>> ELSE SubSeq(ds, CHOOSE i \in nz : \A j \in nz : i <= j, Len(ds))

(* unsigned lexicographic order *)
RECURSIVE LexLess(_, _)
LexLess(a, b) ==
  IF b = <<>> THEN FALSE
  ELSE IF a = <<>> THEN TRUE
  ELSE IF a[1] # b[1] THEN a[1] < b[1]
  ELSE LexLess(Tail(a), Tail(b))

BitAt(c, j) == (c \div (2^(7 - j))) % 2     \* bit j of octet c, most significant first
=============================================================================
