---------------------------- MODULE QueueMachine ---------------------------
(* The ring buffer as two processes over shared memory, one memory access per
   step, with a store buffer on each side that drains in any order except
   across a barrier.  The set of configurations that QueueEvents allows is
   carried along: it must never become empty.                               *)
EXTENDS QueueEvents
CONSTANTS N, Octets, Ins, Rem, Barriers   \* slots, octets per element, calls of each side, whether there are barriers
VARIABLES head, tail, data,    \* shared memory
          sb,                  \* [1..2 -> set of pending stores <<kind, at, octet, value>>]
          p, c,                \* [pc, i, h, t, n]: program counters and registers
          got,                 \* what the consumer has copied out
          confs                    \* configurations
vars == <<head, tail, data, sb, p, c, got, confs>>
Cap == N - 1
(* what side w sees *)
MyHead(w) == IF \E x \in sb[w] : x[1] = "head" THEN (CHOOSE x \in sb[w] : x[1] = "head")[4] ELSE head
MyTail(w) == IF \E x \in sb[w] : x[1] = "tail" THEN (CHOOSE x \in sb[w] : x[1] = "tail")[4] ELSE tail
Ev(e) == confs' = QStep(confs, e, Cap, Octets)
Put(w, x) == sb' = [sb EXCEPT ![w] = @ \cup {x}]

Init == /\ head = 0 /\ tail = 0 /\ data = [i \in 0..(N - 1) |-> [j \in 1..Octets |-> 0]]
        /\ sb = [w \in 1..2 |-> {}]
        /\ p = [pc |-> "idle", i |-> 0, h |-> 0, t |-> 0, n |-> 0]
        /\ c = [pc |-> "idle", i |-> 0, h |-> 0, t |-> 0, n |-> 0]
        /\ got = <<>> /\ confs = QBegin

Drain(w) == \E x \in sb[w] :
  /\ sb' = [sb EXCEPT ![w] = @ \ {x}]
  /\ head' = (IF x[1] = "head" THEN x[4] ELSE head)
  /\ tail' = (IF x[1] = "tail" THEN x[4] ELSE tail)
  /\ data' = (IF x[1] = "data" THEN [data EXCEPT ![x[2]][x[3]] = x[4]] ELSE data)
  /\ UNCHANGED <<p, c, got, confs>>
Fence(w) == Barriers => sb[w] = {}
Shared == <<head, tail, data>>

Produce ==
  \/ p.pc = "idle" /\ p.n < Ins /\ p' = [p EXCEPT !.pc = "head", !.n = @ + 1] /\ Ev(<<0>>) /\ UNCHANGED <<Shared, sb, c, got>>
  \/ p.pc = "head" /\ p' = [p EXCEPT !.pc = "tail", !.h = MyHead(1)] /\ UNCHANGED <<Shared, sb, c, got, confs>>
  \/ p.pc = "tail" /\ p' = [p EXCEPT !.pc = IF (tail - (p.h + 1)) % N >= 1 THEN "copy" ELSE "full", !.t = tail, !.i = 1] /\ UNCHANGED <<Shared, sb, c, got, confs>>
  \/ p.pc = "copy" /\ Put(1, <<"data", p.h, p.i, QItem(p.n, Octets)[p.i]>>)
     /\ p' = [p EXCEPT !.i = @ + 1, !.pc = IF p.i = Octets THEN "publish" ELSE "copy"] /\ UNCHANGED <<Shared, c, got, confs>>
  \/ p.pc = "publish" /\ Fence(1) /\ Put(1, <<"head", 0, 0, (p.h + 1) % N>>) /\ p' = [p EXCEPT !.pc = "done"] /\ UNCHANGED <<Shared, c, got, confs>>
  \/ p.pc = "done" /\ sb[1] = {} /\ p' = [p EXCEPT !.pc = "idle"] /\ Ev(<<1, 1, ((p.t - (p.h + 1)) % N) - 1>>) /\ UNCHANGED <<Shared, sb, c, got>>
  \/ p.pc = "full" /\ p' = [p EXCEPT !.pc = "idle"] /\ Ev(<<1, 0, (p.t - (p.h + 1)) % N>>) /\ UNCHANGED <<Shared, sb, c, got>>
Consume ==
  \/ c.pc = "idle" /\ c.n < Rem /\ c' = [c EXCEPT !.pc = "head", !.n = @ + 1] /\ Ev(<<2>>) /\ UNCHANGED <<Shared, sb, p, got>>
  \/ c.pc = "head" /\ c' = [c EXCEPT !.pc = "tail", !.h = head] /\ UNCHANGED <<Shared, sb, p, got, confs>>
  \/ c.pc = "tail" /\ got' = <<>>
     /\ LET t == MyTail(2) IN c' = [c EXCEPT !.pc = IF (c.h - t) % N >= 1 THEN "copy" ELSE "empty", !.t = t, !.i = 1] /\ UNCHANGED <<Shared, sb, p, confs>>
  \/ c.pc = "copy" /\ got' = Append(got, data[c.t][c.i])
     /\ c' = [c EXCEPT !.i = @ + 1, !.pc = IF c.i = Octets THEN "publish" ELSE "copy"] /\ UNCHANGED <<Shared, sb, p, confs>>
  \/ c.pc = "publish" /\ Fence(2) /\ Put(2, <<"tail", 0, 0, (c.t + 1) % N>>) /\ c' = [c EXCEPT !.pc = "done"] /\ UNCHANGED <<Shared, p, got, confs>>
  \/ c.pc = "done" /\ sb[2] = {} /\ c' = [c EXCEPT !.pc = "idle"] /\ Ev(<<3, 1, ((c.h - c.t) % N) - 1>> \o got) /\ UNCHANGED <<Shared, sb, p, got>>
  \/ c.pc = "empty" /\ c' = [c EXCEPT !.pc = "idle"] /\ Ev(<<3, 0, 0>>) /\ UNCHANGED <<Shared, sb, p, got>>
Next == Produce \/ Consume \/ Drain(1) \/ Drain(2)
Spec == Init /\ [][Next]_vars

Allowed == confs # {}
(* only the producer moves the head and only the consumer the tail; contents lie between them *)
Inv == /\ \A x \in sb[1] : x[1] # "tail"
       /\ \A x \in sb[2] : x[1] = "tail"
       /\ \A s \in confs : Len(s.q) <= Cap
(* once both are idle the ring holds exactly what the bag of configurations says *)
Content == [k \in 1..((head - tail) % N) |-> data[(tail + (k - 1)) % N]]
Settled == p.pc = "idle" /\ c.pc = "idle" => \E s \in confs : s.q = Content
=============================================================================
