------------------------------- MODULE MCPart -------------------------------
(* IndexPartition with the history of divisions, for test generation: every   *)
(* behaviour of the small model is replayed on the real code.                 *)
EXTENDS IndexPartition, Json
VARIABLE hist
MCInit == Init /\ hist = <<>>
MCNext == \E c \in 1..NC : \E t \in Thrs : \E side \in {"T", "F"} :
             Divide(c, t, side) /\ hist' = Append(hist, [c |-> c, t |-> t, side |-> side])
EmitCase == steps = MaxSteps => PrintT("@@GEN " \o ToJson([rk |-> rk, steps |-> hist]))
=============================================================================
