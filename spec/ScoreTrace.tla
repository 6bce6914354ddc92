----------------------------- MODULE ScoreTrace -----------------------------
(* Recorded answers and scores of finished trees (properties C09, C10). The   *)
(* tree is read first, node by node; then every answer is compared with the   *)
(* leaf that the questions lead to.                                           *)
EXTENDS TraceBase, SequencesExt
Sc == INSTANCE Scorer WITH K <- 0, NL <- 0, NQ <- 0, Vote <- "none", leaf <- <<>>, test <- <<>>, i <- 0, cnt <- <<>>, sum <- <<>>, j <- 0, hits <- 0, err <- 0
VARIABLES tree, stree, hits, preds
vars == <<l, e, tree, stree, hits, preds>>
None == <<>>
TraceInit == TBInit /\ tree = None /\ stree = None /\ hits = 0 /\ preds = 0
Load == Loading /\ tree' = None /\ stree' = None /\ hits' = 0 /\ preds' = 0
NodeOf(ev) == IF ev.tb THEN [leaf |-> FALSE, c |-> ev.col, thr |-> ev.thr, ls |-> <<>>]
              ELSE [leaf |-> TRUE, c |-> 0, thr |-> "", ls |-> [i \in 1..Len(ev.leaf.labels) |-> VOf(ev.leaf.labels[i])]]
Node == /\ IsEvent("node") /\ tree' = tree @@ (Ev.p :> TLCEval(NodeOf(Ev))) /\ UNCHANGED <<stree, hits, preds>>
SNode == /\ IsEvent("snode") /\ stree' = stree @@ (Ev.p :> TLCEval(NodeOf(Ev))) /\ UNCHANGED <<tree, hits, preds>>
RECURSIVE Walk(_, _, _)
Walk(tr, q, x) == IF tr[x].leaf THEN x ELSE Walk(tr, q, x \o (IF OrdLe(tr[x].thr, q[tr[x].c]) THEN "T" ELSE "F"))
K == Case.k
LeafLabels(tr, q) == tr[Walk(tr, q, "")].ls
AllFin(v) == \A i \in 1..Len(v) : IsFin(v[i])
\* one row classified: event number `n` of the test set
Class == /\ IsEvent("class")
         /\ LET want == TLCEval(Sc!OneHot(K, Sc!Majority(TLCEval(LeafLabels(tree, Ev.q)), K))) IN
            /\ Req("finite", AllFin(Ev.pred))
            /\ For({"C09"}, "answer-is-the-majority-class-of-the-leaf", VOf(Ev.pred) = want)
            /\ hits' = hits + (IF VOf(Ev.label) = want THEN 1 ELSE 0)
         /\ preds' = preds + 1 /\ UNCHANGED <<tree, stree>>
Tiny == RDiv(1, RMul(1048576, RMul(1048576, 1024)))     \* 2^-50
Acc == /\ IsEvent("acc") /\ Req("finite", IsFin(Ev.v))
       /\ For({"C09"}, "accuracy-is-the-fraction-of-right-answers", RLe(RAbs(RSub(Ev.v, RDiv(hits, preds))), Tiny))
       /\ UNCHANGED <<tree, stree, hits, preds>>
\* regression error of a whole test set
MeanSq(ls) == IF ls = <<>> THEN ROf(0) ELSE RDiv(VSum([i \in 1..Len(ls) |-> VSumSq(VOf(ls[i]))]), Len(ls))
Tol == RMul(RDiv(1, RMul(65536, 131072)), RAdd(MeanSq(Case.labels), MeanSq(Case.qlabels)))
WantErr(tr) == LET n == Len(Case.qrows)
                   means == TLCEval([x \in {y \in DOMAIN tr : tr[y].leaf /\ tr[y].ls # <<>>} |-> Sc!MeanLabel(tr[x].ls, K)]) IN
   RDiv(VSum(TLCEval([i \in 1..n |-> Sc!SqErr(means[Walk(tr, Case.qrows[i], "")], VOf(Case.qlabels[i]))])), n)
Mse == /\ IsEvent("mse") /\ Req("finite", IsFin(Ev.v))
       /\ For({"C10"}, "error-is-the-mean-squared-error-of-leaf-means", RLe(RAbs(RSub(Ev.v, WantErr(tree))), Tol))
       /\ UNCHANGED <<tree, stree, hits, preds>>
SMse == /\ IsEvent("smse") /\ Req("finite", IsFin(Ev.v))
        /\ For({"C10"}, "error-is-the-mean-squared-error-of-leaf-means", RLe(RAbs(RSub(Ev.v, WantErr(stree))), Tol))
        /\ UNCHANGED <<tree, stree, hits, preds>>
\* errors on the training set for growing depth limits
TrainTol == RMul(RDiv(1, RMul(65536, 131072)), MeanSq(Case.labels))
Depths == /\ IsEvent("depths") /\ Req("finite", AllFin(Ev.v))
          /\ For({"C10"}, "deeper-trees-fit-no-worse", \A i \in 1..(Len(Ev.v) - 1) : RLe(Ev.v[i + 1], RAdd(Ev.v[i], TrainTol)))
          /\ UNCHANGED <<tree, stree, hits, preds>>
TraceNext == (e = 0 /\ Load) \/ (e > 0 /\ (Node \/ SNode \/ Class \/ Acc \/ Mse \/ SMse \/ Depths))
View == <<l, e>>
=============================================================================
