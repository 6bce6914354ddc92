----------------------------- MODULE BoostTrace -----------------------------
(* A trained ensemble, tree by tree, then its answers (properties C11-C16,    *)
(* C20, C24). Scores and residuals are computed exactly from the             *)
(* recorded leaf outputs of the earlier rounds; `unc` bounds how far the      *)
(* implementation's rounded scores may be from them.                          *)
EXTENDS TraceBase, Boosting
VARIABLES outs,                      \* stored output of every leaf of the tree being read
          top,                       \* largest magnitude met in any score or label
          errs,                      \* training error after every round (regression)
          preds, last                \* recorded answers; what the previous prefix did on the training rows
vars == <<l, e, tvars, bvars, outs, top, errs, preds, last>>
mine == <<outs, top, errs, preds, last>>
TraceInit == TBInit /\ TreeInit /\ BoostInit /\ outs = <<>> /\ top = ROf(0) /\ errs = <<>> /\ preds = <<>> /\ last = [t |-> 0 - 1, score |-> ROf(0), perfect |-> FALSE]
Pow2(i) == LET RECURSIVE P(_) P(j) == IF j = 0 THEN ROf(1) ELSE IF j >= 16 THEN RMul(65536, P(j - 16)) ELSE RMul(2, P(j - 1)) IN RDiv(1, P(i))
Col(j) == [i \in 1..Len(Case.rows) |-> Case.rows[i][j]]
Problem == [rk |-> TLCEval([j \in 1..Len(Case.rows[1]) |-> DenseRank(TLCEval(Col(j)))]),
            y |-> TLCEval([i \in 1..Len(Case.labels) |-> VOf(Case.labels[i])]),
            k |-> Case.k, n |-> Len(Case.rows), kind |-> Case.kind, max |-> Case.max, lr |-> F64(Case.lr)]
Load == Loading /\ b' = TLCEval(Problem) /\ UNCHANGED <<tvars, init, scores, ens, round, mine>>
FinVec(v) == \A j \in 1..Len(v) : IsFin(v[j])
Near(x, y, tol) == RLe(RAbs(RSub(x, y)), tol)

\* ---- the start
MaxAbsAll(vs) == FoldLeft(LAMBDA m, v : RMax(m, VMaxAbs(v)), ROf(0), vs)
Guess == [j \in 1..b.k |-> Ev.init[j]]
GuessRight == LET g == FirstGuess(b) IN
   \A j \in 1..b.k : Near(Ev.init[j], g[j], RMul(Pow2(40), IF b.kind = "reg" THEN RDiv(VSum([r \in 1..b.n |-> RAbs(b.y[r][j])]), b.n) ELSE 1))
Start == /\ IsEvent("init")
         /\ Req("initial-guess-has-one-entry-per-target", Len(Ev.init) = b.k)
         /\ Req("finite", FinVec(Ev.init))
         /\ For({"C11", "C13"}, "initial-guess", GuessRight)
         /\ For({"C11"}, "learning-rate-kept", SameNum(Ev.mlr, Case.lr))
         /\ BeginBoost(b, TLCEval(VOf(Guess)))
         /\ top' = TLCEval(RMax(MaxAbsAll(b.y), VMaxAbs(Guess)))
         /\ errs' = errs /\ UNCHANGED <<tvars, outs, preds, last>>

\* ---- a round: the tree over the residuals
ScoreUnc == RMul(round + 1, RMul(Pow2(50), top))
ResidUnc == IF b.kind = "reg" THEN RMul(2, ScoreUnc)
            ELSE LET u == RAdd(RMul(2, ScoreUnc), RMul(b.k, Pow2(48))) IN IF RLt(1, u) THEN ROf(1) ELSE u
Round == /\ IsEvent("round")
         /\ StartRound(TLCEval(ResidUnc)) /\ outs' = <<>> /\ UNCHANGED <<top, errs, preds, last>>
Here == CHOOSE w \in work : w.path = Ev.p
TreeProps == IF b.kind = "reg" THEN {"C12"} ELSE IF b.kind = "mc" THEN {"C14"} ELSE {"C15"}
\* is v the Newton step num/den, both known up to the uncertainty eps?
NewtonNear(v, nu, de, eps) == LET s == RDiv(b.k - 1, b.k) IN
   IF RLe(de, RMul(2, eps)) THEN TRUE
   ELSE LET x == RDiv(nu, de) IN Near(v, RMul(s, x), RMul(s, RDiv(RMul(eps, RAdd(1, RAbs(x))), RSub(de, eps))))
\* is v provably not larger than the Newton step (known up to eps) of some other class?
LeafEps(w) == RMul(Len(w.rows), RAdd(p.noise, Pow2(48)))
LeafRight(w, d) ==
   CASE b.kind = "reg" -> LET m == MeanOf(p.y, w.rows, b.k) tol == RAdd(p.noise, RMul(Pow2(40), MaxAbs(p, w.rows))) IN
                            Len(d.out) = b.k /\ \A j \in 1..b.k : Near(d.out[j], m[j], tol)
     [] b.kind = "mc" -> LET nu == Num(p.y, w.rows, b.k) de == Den(p.y, w.rows, b.k) eps == LeafEps(w) IN
                            Len(d.out) = b.k /\ \A j \in 1..b.k : NewtonNear(d.out[j], nu[j], de[j], eps)
     [] OTHER -> LET nu == Num(p.y, w.rows, b.k) de == Den(p.y, w.rows, b.k) eps == LeafEps(w)
                     s == RDiv(b.k - 1, b.k)
                     dev(x, dd) == RMul(s, RDiv(RMul(eps, RAdd(1, RAbs(x))), RSub(dd, eps)))
                 IN /\ d.class \in 1..b.k
                    /\ NewtonNear(d.max, nu[d.class], de[d.class], eps)
                    /\ \A j \in 1..b.k : RLe(de[j], RMul(2, eps)) \/
                          LET x == RDiv(nu[j], de[j]) IN RLe(RSub(RMul(s, x), dev(x, de[j])), d.max)
FinLeaf(d) == IF b.kind = "amg" THEN IsFin(d.max) ELSE FinVec(d.out)
LeafStored(d) == IF b.kind = "amg" THEN [mx |-> F64(d.max), class |-> d.class] ELSE [out |-> VOf(d.out)]
Leaf == /\ IsEvent("node") /\ ~Ev.tb /\ ~Ev.fb
        /\ Req("node-expected-here", \E w \in work : w.path = Ev.p /\ w.lv = Ev.d)
        /\ Req("leaf-holds-an-output", Ev.lf /\ Ev.isleaf /\ (b.kind = "amg" => Ev.leaf.class \in 1..b.k) /\ (b.kind # "amg" => Len(Ev.leaf.out) = b.k))
        /\ Req("finite", FinLeaf(Ev.leaf))
        /\ For(TreeProps, "leaf-only-at-limit-or-nothing-to-gain", MayStop(Here))
        /\ For(TreeProps, "leaf-output", LeafRight(Here, Ev.leaf))
        /\ outs' = outs @@ (Ev.p :> TLCEval(LeafStored(Ev.leaf)))
        /\ PutLeaf(Here, work \ {Here}, busy) /\ UNCHANGED <<bvars, top, errs, preds, last>>
Split == /\ IsEvent("node") /\ (Ev.tb \/ Ev.fb)
         /\ Req("node-expected-here", \E w \in work : w.path = Ev.p /\ w.lv = Ev.d)
         /\ Req("inner-node-has-two-branches-and-an-existing-column", Ev.tb /\ Ev.fb /\ ~Ev.lf /\ ~Ev.isleaf /\ Ev.col \in 1..Len(p.rk))
         /\ LET t == RankOf(Col(Ev.col), Ev.thr) IN
            /\ Req("both-sides-non-empty", Separates(p, Here.rows, Ev.col, t))
            /\ For(TreeProps, "depth-limit", Here.lv < p.max)
            /\ For(TreeProps, "pure-or-inseparable-node-not-divided", MaySplit(Here))
            /\ For(TreeProps, "best-question-for-the-residuals", Best(Here, Ev.col, t))
            /\ PutSplit(Here, Ev.col, t, Ev.thr, work \ {Here}, busy)
         /\ UNCHANGED <<bvars, mine>>
\* ---- the round ends: scores move along the leaves
Slack(err) == RAdd(RMul(Pow2(36), err), RMul(16 * b.n * b.k, RMul(ResidUnc, ResidUnc)))
\* the leaves the rows of one class end in hold no other class
OwnLabel(r) == Case.labels[r]
PureTree(tr) == \A x \in DOMAIN tr : tr[x].leaf => \A i \in 1..Len(tr[x].rows) : OwnLabel(tr[x].rows[i]) = OwnLabel(tr[x].rows[1])
LeafMass == LET D == SetToSeq(DOMAIN outs) IN VMaxAbs([i \in 1..Len(D) |-> RMul(b.lr, VMaxAbs(Adds(b.kind, outs[D[i]], b.k)))])
RoundEnd == /\ IsEvent("roundend") /\ Req("all-nodes-present", Grown)
            /\ Update(outs)
            /\ top' = TLCEval(RMax(top, TLCEval(RMax(MaxAbsAll(scores'), LeafMass))))
            /\ LET before == TrainError after == TrainError' IN
               /\ For({"C13"}, "training-error-does-not-grow", b.kind # "reg" \/ RLe(after, RAdd(before, Slack(before))))
               /\ errs' = IF b.kind = "reg" THEN Append(errs, after) ELSE Append(errs, IF PureTree(tree) THEN 1 ELSE 0)
            /\ UNCHANGED <<tvars, outs, preds, last>>
Trained == /\ IsEvent("trained")
           /\ For({"C11", "C12", "C14", "C15"}, "one-tree-per-round", round = Case.rounds)
           /\ UNCHANGED <<tvars, bvars, mine>>

\* ---- answers
Raw(q, t) == ScoreOf(TLCEval(LeavesFor(q, t)))
Mass(q, t) == LET lv == TLCEval(LeavesFor(q, t)) IN     \* sum of the magnitudes of everything added
   FoldLeft(LAMBDA a, v : RAdd(a, v), VMaxAbs(init), [i \in 1..t |-> RMul(RAbs(b.lr), VMaxAbs(Adds(b.kind, lv[i], b.k)))])
PredTol(q, t) == RMul(t + 1, RMul(Pow2(50), Mass(q, t)))
IsOneHot(v) == /\ Len(v) = b.k
               /\ \E c \in 1..b.k : SameNum(v[c], "1.0") /\ \A j \in 1..b.k : j = c \/ SameNum(v[j], "0.0")
ClassOf(v) == CHOOSE c \in 1..Len(v) : SameNum(v[c], "1.0")
\* everything ever added to two classes is literally the same: then their scores are, too
SameAdds(q, t, c, d) == LET lv == TLCEval(LeavesFor(q, t)) IN
   REq(init[c], init[d]) /\ \A i \in 1..t : LET a == Adds(b.kind, lv[i], b.k) IN REq(a[c], a[d])
BestClass(q, t, c) == LET s == TLCEval(Raw(q, t)) tol == RMul(2, PredTol(q, t)) IN
   /\ \A j \in 1..b.k : RLe(s[j], RAdd(s[c], tol))
   /\ \A j \in 1..(c - 1) : ~SameAdds(q, t, c, j)
AnswerRight(q, t, v) ==
   IF b.kind = "reg" THEN Len(v) = b.k /\ FinVec(v) /\ LET s == TLCEval(Raw(q, t)) tol == PredTol(q, t) IN \A j \in 1..b.k : Near(v[j], s[j], tol)
   ELSE IsOneHot(v) /\ BestClass(q, t, ClassOf(v))
AnswerOk(q, t, v) ==
   /\ Req("answer-finite", FinVec(v))
   /\ For(IF b.kind = "reg" THEN {"C11"} ELSE {"C20", "C11"}, "answer-of-the-ensemble", AnswerRight(q, t, v))
   /\ For(IF b.kind = "reg" THEN {} ELSE {"C20"}, "one-hot-answer", IsOneHot(v))
Pred == /\ IsEvent("pred") /\ AnswerOk(Ev.q, round, Ev.v)
        /\ preds' = Append(preds, Ev.v) /\ UNCHANGED <<tvars, bvars, outs, top, errs, last>>
Batch == /\ IsEvent("batch")
         /\ For(IF b.kind = "reg" THEN {"C11", "C24"} ELSE {"C20", "C11"}, "batch-answers-every-row-in-order-like-alone", Ev.v = preds)
         /\ UNCHANGED <<tvars, bvars, mine>>
\* the score: accuracy, or mean squared error, of the recorded answers
SameVec(u, v) == Len(u) = Len(v) /\ \A j \in 1..Len(u) : SameNum(u[j], v[j])
Hits(ps, ls) == Cardinality({i \in 1..Len(ls) : SameVec(ps[i], ls[i])})
Mse(ps, ls) == RDiv(VSum([i \in 1..Len(ls) |-> VSumSq(VSub(VOf(ls[i]), VOf(ps[i])))]), Len(ls) * b.k)
ScoreRight(v, ps, ls) == /\ IsFin(v) /\ Len(ps) = Len(ls)
   /\ IF b.kind = "reg" THEN LET m == TLCEval(Mse(ps, ls)) IN Near(v, m, RMul(Pow2(36), m))
      ELSE Near(RMul(v, Len(ls)), Hits(ps, ls), RMul(Pow2(45), Len(ls)))
ScoreProps == IF b.kind # "reg" THEN {"C20"} ELSE IF Case.ontrain THEN {"C13", "C24"} ELSE {"C24"}
Score == /\ IsEvent("score")
         /\ For({"C16"}, "score-finite", IsFin(Ev.v))
         /\ For(ScoreProps, "score-of-the-answers", ScoreRight(Ev.v, preds, Case.qlabels))
         /\ UNCHANGED <<tvars, bvars, mine>>
\* raw scores of a classifier: with entry d of the initial guess replaced by lo the answer stays c,
\* with hi it becomes d; so raw[c] - raw[d] lies between the two shifts
Probe == /\ IsEvent("probe")
         /\ For({"C11", "C15", "C20"}, "raw-score-difference",
                LET s == TLCEval(Raw(Ev.q, round))
                    dist == RSub(s[Ev.c], s[Ev.d])
                    tol == RAdd(RMul(2, PredTol(Ev.q, round)), RMul(round + 1, RMul(Pow2(48), RMax(RAbs(Ev.lo), RAbs(Ev.hi))))) IN
                /\ IsFin(Ev.lo) /\ IsFin(Ev.hi)
                /\ RLe(RSub(RSub(Ev.lo, init[Ev.d]), tol), dist) /\ RLe(dist, RAdd(RSub(Ev.hi, init[Ev.d]), tol)))
         /\ UNCHANGED <<tvars, bvars, mine>>
\* the model made of the first t trees, asked for the test rows (t ascending)
Perfect(ps, ls) == Hits(ps, ls) = Len(ls)
Prefix == /\ IsEvent("prefix")
          /\ Req("answers-for-all-rows", Len(Ev.pred) = Len(Case.qrows))
          /\ \A i \in 1..Len(Ev.pred) : IF Case.light THEN Req("answer-finite", FinVec(Ev.pred[i])) ELSE AnswerOk(Case.qrows[i], Ev.t, Ev.pred[i])
          /\ For(ScoreProps, "score-of-the-answers", ScoreRight(Ev.score, Ev.pred, Case.qlabels))
          /\ For({"C16"}, "score-finite", IsFin(Ev.score))
          \* C13: the score on the training set never grows
          /\ For({"C13"}, "training-score-does-not-grow", b.kind # "reg" \/ ~Case.ontrain \/ last.t < 0 \/
                   RLe(Ev.score, RAdd(last.score, RAdd(RMul(Pow2(34), last.score), RMul(16 * b.k, RMul(ResidUnc, ResidUnc))))))
          \* C16: a perfect fit is not lost by rounds whose trees separate the classes
          /\ For({"C16"}, "perfect-fit-kept", b.kind = "reg" \/ ~Case.ontrain \/ last.t < 0 \/ ~last.perfect
                   \/ (~Case.sep /\ \E i \in (last.t + 1)..Ev.t : i > Len(errs) \/ errs[i] # 1)
                   \/ Perfect(Ev.pred, Case.qlabels))
          /\ last' = [t |-> Ev.t, score |-> F64(Ev.score), perfect |-> Perfect(Ev.pred, Case.qlabels)]
          /\ UNCHANGED <<tvars, bvars, outs, top, errs, preds>>
\* long training: only what C16 needs
Fin == /\ IsEvent("fin")
       /\ For({"C16"}, "all-leaf-outputs-finite", Ev.bad = 0)
       /\ For({"C11", "C12", "C14", "C15", "C16"}, "one-tree-per-round", Ev.ntrees = Case.rounds)
       /\ UNCHANGED <<tvars, bvars, mine>>
End == IsEvent("end") /\ UNCHANGED <<tvars, bvars, mine>>
TraceNext == (e = 0 /\ Load) \/ (e > 0 /\ (Start \/ Round \/ Leaf \/ Split \/ RoundEnd \/ Trained \/ Pred \/ Batch \/ Score \/ Probe \/ Prefix \/ Fin \/ End))
View == <<l, e>>
=============================================================================
