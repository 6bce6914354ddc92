------------------------------ MODULE ProgTrace ------------------------------
(* What the program printed, on two runs, against the figures of the ensemble *)
(* that its parameters define: recorded tree by tree from a training call     *)
(* with the same rows; its answers are computed here (module Boosting).       *)
EXTENDS TraceBase, Boosting
VARIABLES pc, train, test, model, said, prev
P == INSTANCE Program WITH train <- train
pv == <<pc, train, test, model, said>>
vars == <<l, e, tvars, bvars, pv, prev>>
TraceInit == TBInit /\ TreeInit /\ BoostInit /\ P!Boot(<<>>) /\ prev = <<>>
Load == Loading /\ UNCHANGED <<tvars, bvars, pv, prev>>
Pow2(k) == LET RECURSIVE Q(_) Q(j) == IF j = 0 THEN ROf(1) ELSE IF j >= 16 THEN RMul(65536, Q(j - 16)) ELSE RMul(2, Q(j - 1)) IN RDiv(1, Q(k))
\* the ensemble: 300 rounds, rate 0.1
NodeOf(n) == IF n.tb THEN [leaf |-> FALSE, c |-> n.col, t |-> 0, thr |-> n.thr] ELSE [leaf |-> TRUE, out |-> [out |-> VOf(n.leaf.out)]]
TreeOf(ns) == FoldLeft(LAMBDA f, n : f @@ (n.p :> NodeOf(n)), <<>>, ns)
Init0 == /\ IsEvent("init") /\ Req("finite", \A j \in 1..Len(Ev.init) : IsFin(Ev.init[j]))
         /\ b' = [n |-> 0, kind |-> "reg", k |-> Case.k, lr |-> F64("0.1")] /\ init' = TLCEval(VOf(Ev.init))
         /\ UNCHANGED <<tvars, scores, ens, round, pv, prev>>
Tree1 == /\ IsEvent("tree") /\ ens' = Append(ens, TLCEval(TreeOf(Ev.nodes))) /\ round' = round + 1
         /\ Req("depth-limit", \A i \in 1..Len(Ev.nodes) : Ev.nodes[i].d <= 3)
         /\ UNCHANGED <<tvars, b, init, scores, pv, prev>>
Asked(q) == ScoreOf(LeavesFor(q, Len(ens)))
Train == /\ IsEvent("trained") /\ Req("300-rounds", Len(ens) = 300)
         /\ pc = "start" /\ P!Learn(TLCEval([i \in 1..Len(Case.qrows) |-> Asked(Case.qrows[i])]))
         /\ UNCHANGED <<tvars, bvars, prev>>
Test == /\ IsEvent("run") /\ Req("program-ends-normally", Ev.status = 0)
        /\ Req("four-figures", Ev.figures = 4)
        /\ IF pc = "trained" THEN P!ReadTest(Case.qlabels) /\ prev' = prev
           ELSE pc = "end" /\ prev' = said /\ said' = <<>> /\ pc' = "tested" /\ UNCHANGED <<train, test, model>>
        /\ UNCHANGED <<tvars, bvars>>
\* magnitude of everything added up in an answer, times the rounding of 300 additions
Reach == VMaxAbs([i \in 1..Len(Case.labels) |-> VMaxAbs(VOf(Case.labels[i]))])
Delta == RMul(Pow2(38), Reach)
Mse == P!MeanSqErr(model, test)
Near(x, y, tol) == RLe(RAbs(RSub(x, y)), tol)
\* |d| known up to Delta: d^2 up to 2^-30 d^2 + 2^31 Delta^2
MseTol(m) == RAdd(RMul(Pow2(30), m), RMul(RDiv(1, Pow2(31)), RMul(Delta, Delta)))
Fins(v) == \A j \in 1..Len(v) : IsFin(v[j])
FigureRight(what, v) ==
   CASE what = "mse" -> Len(v) = 1 /\ Fins(v) /\ LET m == Mse IN Near(v[1], m, MseTol(m))
     [] what = "rmse" -> Len(v) = 1 /\ Fins(v) /\ RLe(0, v[1]) /\ Near(RMul(v[1], v[1]), said[1][1], RMul(Pow2(48), said[1][1]))
     [] what = "label" -> Len(v) = Case.k /\ \A j \in 1..Case.k : SameNum(v[j], test[1][j])
     [] OTHER -> Len(v) = Case.k /\ Fins(v) /\ \A j \in 1..Case.k : Near(v[j], model[1][j], Delta)
Figure == /\ IsEvent("figure") /\ pc = "tested"
          /\ Req("figure-" \o P!Order[Len(said) + 1], FigureRight(P!Order[Len(said) + 1], Ev.v))
          /\ Req("same-on-every-run", prev = <<>> \/ prev[Len(said) + 1] = Ev.v)
          /\ P!Say(Ev.v) /\ UNCHANGED <<tvars, bvars, prev>>
End == IsEvent("end") /\ Req("all-figures-printed", pc = "end") /\ UNCHANGED <<tvars, bvars, pv, prev>>
TraceNext == (e = 0 /\ Load) \/ (e > 0 /\ (Init0 \/ Tree1 \/ Train \/ Test \/ Figure \/ End))
View == <<l, e>>
=============================================================================
