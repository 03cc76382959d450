------------------------------- MODULE G_Util -------------------------------
(* Histories and vectors for the containers, hashes and helpers. *)
EXTENDS UtilEvents, Json, IOUtils
VARIABLE done
N == atoi(IOEnv.N)
SeqsN(alpha, k) == SetToSeq([1..k -> alpha])
V(op, a, r) == [op |-> op, a |-> a, r |-> r]
(* every program of N operations over three keys, looking at everything after each *)
TreeOps == {0, 1} \X {1, 2, 3} \cup {<<3, 2>>, <<6, 1>>, <<7, 2>>, <<4, 0>>, <<5, 0>>}
TreeVecs == LET ps == SeqsN(TreeOps, N) IN
  Concat([k \in 1..2 |-> [i \in 1..Len(ps) |-> V("tree", <<k - 1, ConcatMap(LAMBDA o : o \o <<8, 0>>, ps[i])>>, <<>>)]])
(* every program of N operations that makes sense, over three items *)
RECURSIVE Progs(_, _)
Progs(l, n) ==
  IF n = 0 THEN {<<>>}
  ELSE LET on == Range(l[1]) \cup Range(l[2])  off == {1, 2, 3} \ on
           ops == ({0, 1} \X off \X {0, 1}) \cup {<<2, x, At2(l, x) - 1>> : x \in on} \cup {<<5, 0, 0>>, <<5, 0, 1>>}
                  \cup {<<o + 128 * (At2(l, y) - 1), x, y>> : o \in {3, 4}, x \in off, y \in on}
       IN UNION {{o \o p : p \in Progs(ListStep(l, o[1] % 128, o[2], o[3]), n - 1)} : o \in ops}
ListVecs == LET ps == SetToSeq(Progs(<<<<>>, <<>>>>, N)) IN [i \in 1..Len(ps) |-> V("list", <<ps[i]>>, <<>>)]
(* every length, every place of a single set octet *)
HashVecs ==
  LET ks == UNION {{[j \in 1..n |-> IF j = i THEN 128 ELSE 0] : i \in 0..n} : n \in 0..(8 + 6 * N)}
      q == SetToSeq(ks) IN
  [i \in 1..Len(q) |-> V("hash", <<q[i], <<0, 0, 0, i % 5>>, <<i % 3, 0, 0, 0>>>>,
     LET x == Lookup3(q[i], <<0, i % 5>>, <<(i % 3) * 256, 0>>, "LE")  y == Lookup3(q[i], <<0, i % 5>>, Zero32, "LE")
         w == [little |-> y[1], big |-> Lookup3(q[i], <<0, i % 5>>, Zero32, "BE")[1], c2 |-> x[1], b2 |-> x[2], same |-> 1]
     IN IF (Len(q[i]) % 4) = 0 THEN w @@ [word |-> y[1], wc2 |-> x[1], wb2 |-> x[2]] ELSE w)]
Nx == <<78>>
SpOps == {<<43, 97, 0, 49>>, <<43, 98, 0, 50>>, <<97, 97, 0, 51>>, <<45, 97>>, <<95, 97>>, <<43, 46, 97, 0, 52>>, Nx, <<79>>, <<67, 1>>, <<67, 2>>, <<67, 3>>, <<70, 1>>, <<70, 2>>, <<70, 3>>}
SpVecs == LET hs == SeqsN(SpOps, N) IN [i \in 1..Len(hs) |-> V("spool", <<<<43, 98, 0, 48>>>> \o hs[i] \o <<Nx, Nx, Nx, Nx, Nx>>, <<>>)]
ReadAns == {1, 2, 3, 0, -1, -2}
ReadVecs == LET as == UNION {[1..k -> ReadAns] : k \in 0..N}  qs == SetToSeq(as \X (0..4)) IN
  [i \in 1..Len(qs) |-> V("read", <<<<7, 8, 9, 10>>, qs[i][2]>> \o qs[i][1], <<>>)]
Vecs ==
  CASE IOEnv.KIND = "tree" -> TreeVecs
    [] IOEnv.KIND = "list" -> ListVecs
    [] IOEnv.KIND = "hash" -> HashVecs
    [] IOEnv.KIND = "spool" -> SpVecs
    [] IOEnv.KIND = "read" -> ReadVecs
Init == done = ndJsonSerialize(IOEnv.OUT, Vecs)
Spec == Init /\ [][FALSE]_done
=============================================================================
