------------------------------ MODULE MCSched ------------------------------
(* Every schedule of NT workers growing the trees of a family of problems     *)
(* (property C07): emits the order in which nodes are claimed, to be forced   *)
(* on the real code.                                                          *)
EXTENDS MCTree
VARIABLE sched
SInit == Init /\ sched = <<>> /\ \A c \in 1..NC : \A r \in 1..(NR - 1) : p.rk[c][r] < p.rk[c][r + 1]
SClaim == Cardinality(busy) < NT /\ \E w \in work : Claim(w) /\ sched' = Append(sched, w.path)
SNext == SClaim \/ (FinishStep /\ UNCHANGED sched)
SpecS == SInit /\ [][SNext]_<<tvars, sched>>
\* whatever the schedule, the finished tree is the sequential one
AnyScheduleSameTree == Grown => tree = Sequential(Root(p))
EmitSched == Grown => PrintT("@@GEN " \o ToJson([rk |-> p.rk, y |-> p.y, max |-> p.max, sched |-> sched]))
=============================================================================
