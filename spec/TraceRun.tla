------------------------------ MODULE TraceRun ------------------------------
(* Consumes a trace recorded from the real code, one event per step.  An event
   is a step of the system only if the specification allows it (Match); events
   the specification forbids are collected in rej.                            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT Match(_)
VARIABLES l, rej

Trace == ndJsonDeserialize(IOEnv.TRACE)

(* No call may crash, hang or leave memory behind, whatever it computes. *)
Sane(e) == e.crash = 0 /\ e.leak = 0

Init == l = 0 /\ rej = <<>>
Next ==
  /\ l < Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l + 1] IN
     rej' = IF Sane(e) /\ Match(e) THEN rej ELSE Append(rej, l + 1)
  /\ IF l' = Len(Trace) THEN PrintT(<<"TRACE-DONE", Len(Trace), rej'>>) ELSE TRUE
Spec == Init /\ [][Next]_<<l, rej>>
=============================================================================
