------------------------------- MODULE G_Sets -------------------------------
(* The small lists of SetLaws, to be sorted, and its record lists, to be grouped. *)
EXTENDS SetLaws, Json, IOUtils
VARIABLE done
GInit == /\ done = ndJsonSerialize(IOEnv.OUT, TLCEval(LET cs == TLCEval(SetToSeq(IF IOEnv.KIND = "lists" THEN Lists ELSE RecLists)) IN [i \in 1..Len(cs) |-> [a |-> cs[i]]]))
         /\ list = <<>> /\ recs = <<>>
GSpec == GInit /\ [][FALSE]_done
=============================================================================
