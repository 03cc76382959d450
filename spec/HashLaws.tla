------------------------------ MODULE HashLaws ------------------------------
(* The specified hash is the published one: its author's test values; and its
   mixing loses nothing.                                                     *)
EXTENDS Hashes
CONSTANTS Halves
VARIABLES s
Four == S("Four score and seven years ago")
Dead == <<57005, 48879>>
ASSUME Lookup3(<<>>, Zero32, Zero32, "LE") = <<Dead, Dead>>
ASSUME Lookup3(<<>>, Zero32, Dead, "LE") = <<<<48475, 32222>>, Dead>>
ASSUME Lookup3(<<>>, Dead, Dead, "LE") = <<<<39945, 15565>>, <<48475, 32222>>>>
ASSUME Lookup3(Four, Zero32, Zero32, "LE") = <<<<6007, 1361>>, <<52850, 9958>>>>
ASSUME Lookup3(Four, Zero32, <<0, 1>>, "LE") = <<<<58208, 31918>>, <<48439, 7652>>>>
ASSUME Lookup3(Four, <<0, 1>>, Zero32, "LE") = <<<<52578, 33121>>, <<27838, 42163>>>>
Words == Halves \X Halves
Init == s \in Words \X Words \X Words
Spec == Init /\ [][FALSE]_s
Lossless == UnMix(Mix(s)) = s
Arithmetic == LET x == s[1]  y == s[2] IN Sub32(Add32(x, y), y) = x /\ Rot32(Rot32(x, 4), 28) = x /\ Rot32(Rot32(x, 19), 13) = x /\ Rot32(x, 16) = <<x[2], x[1]>>
=============================================================================
