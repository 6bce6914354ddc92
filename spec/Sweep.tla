------------------------------- MODULE Sweep -------------------------------
(* The split search as the code performs it: columns one after the other (in  *)
(* the code: in parallel, results kept per column and compared in column      *)
(* order), rows of a column in ascending order, running sums left and right   *)
(* of the current row; a threshold is evaluated at the first row of each run  *)
(* of equal values.  TrackPrevious = FALSE is the defect repaired by the      *)
(* first fix commit: the previous value stayed that of the very first row.    *)
EXTENDS VarSplit, Json
CONSTANTS NR, NC, NK, Vals, Lbls, TrackPrevious
VARIABLES p, c, pos, prev, left, right, cbest, best, pc
vars == <<p, c, pos, prev, left, right, cbest, best, pc>>
G == [i \in 1..NR |-> i]
Problems == { [rk |-> rk, y |-> y, k |-> NK, n |-> NR, noise |-> 0] :
                rk \in [1..NC -> [1..NR -> Vals]], y \in [1..NR -> [1..NK -> Lbls]] }
None == [s |-> ROf(-1), c |-> 0, t |-> 0]
Init == /\ p \in Problems /\ pc = "start" /\ c = 0 /\ pos = 1 /\ prev = 0
        /\ left = VZero(NK) /\ right = VZero(NK) /\ cbest = None /\ best = None
Order == SortBy(p.rk[c], G)
StartColumn ==
  /\ pc \in {"start", "column"} /\ c < NC /\ c' = c + 1
  /\ pos' = 1 /\ prev' = p.rk[c + 1][SortBy(p.rk[c + 1], G)[1]]
  /\ left' = VZero(NK) /\ right' = Total(p, G) /\ cbest' = None /\ pc' = "sweep"
  /\ UNCHANGED <<p, best>>
Consume ==
  /\ pc = "sweep" /\ pos <= NR
  /\ LET r == Order[pos]  v == p.rk[c][r]
         s == RAdd(SqNorm(left, pos - 1), SqNorm(right, NR - pos + 1)) IN
     /\ cbest' = IF v # prev /\ pos > 1 /\ RLt(cbest.s, s) THEN [s |-> s, c |-> c, t |-> v] ELSE cbest
     /\ left' = VAdd(left, VOf(p.y[r])) /\ right' = VSub(right, VOf(p.y[r]))
     /\ prev' = IF TrackPrevious THEN v ELSE prev
  /\ pos' = pos + 1 /\ UNCHANGED <<p, c, best, pc>>
EndColumn ==
  /\ pc = "sweep" /\ pos = NR + 1
  /\ best' = IF cbest.c # 0 /\ RLt(IF best.c = 0 THEN Parent(p, G) ELSE best.s, cbest.s) THEN cbest ELSE best
  /\ pc' = IF c = NC THEN "done" ELSE "column"
  /\ UNCHANGED <<p, c, pos, prev, left, right, cbest>>
Next == StartColumn \/ Consume \/ EndColumn
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Reported == IF best.c = 0 THEN ROf(0) ELSE RDiv(RSub(best.s, Parent(p, G)), NR)

\* the column result is the maximum over the thresholds by definition (grain used by SplitTrace)
ColumnExact == pc = "sweep" /\ pos = NR + 1 => REq(cbest.s, BestCand(p.rk[c], p.y, G, NK))
\* C01: no question does better;  C02: the reported gain is what the question achieves
Optimal == pc = "done" => \A d \in 1..NC : \A t \in Vals : RLe(GainDef(p, G, d, t), Reported)
Honest  == pc = "done" => /\ best.c # 0 => REq(Reported, GainDef(p, G, best.c, best.t)) /\ Separates(p, G, best.c, best.t)
                                           /\ RLt(0, Reported)
                          /\ REq(Reported, MaxGain(p, G))
RightSide == pc = "sweep" => VAdd(left, right) = Total(p, G)
Terminates == <>(pc = "done")
\* case generation: every problem of the model
EmitCase == pc = "start" => PrintT("@@GEN " \o ToJson([rk |-> p.rk, y |-> p.y]))
=============================================================================
