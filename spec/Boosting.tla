------------------------------ MODULE Boosting ------------------------------
(* Gradient boosting of regression ("reg"), multi-class ("mc") and            *)
(* approximate multi-class ("amg") ensembles. A round has the steps of the    *)
(* code: StartRound computes the residuals of the current scores and hands    *)
(* them to a tree builder (module TreeBuilder), the tree grows, every leaf    *)
(* gets its output, Update adds rate x leaf to the scores of the leaf's rows. *)
(* A problem: rk, y (labels), k, n, kind, max (levels), lr (learning rate).   *)
EXTENDS TreeBuilder
VARIABLES b, init, scores, ens, round
bvars == <<b, init, scores, ens, round>>

\* ---- definitions
\* probabilities of a score vector (a common shift of all scores changes nothing)
Softmax(v) == LET m == VMax(v)
                  ex == TLCEval([i \in 1..Len(v) |-> RExp(RSub(v[i], m))])
                  s == VSum(ex)
              IN  [i \in 1..Len(v) |-> RApprox(RDiv(ex[i], s))]
MeanOf(y, rows, k) == VScale(RDiv(1, Len(rows)), VSumRows(y, rows, k))
FirstGuess(q) == IF q.kind = "reg" THEN MeanOf(q.y, [i \in 1..q.n |-> i], q.k) ELSE [j \in 1..q.k |-> RDiv(1, q.k)]
Residual(q, r, s) == IF q.kind = "reg" THEN VSub(q.y[r], s) ELSE VSub(q.y[r], Softmax(s))
\* the Newton step of a leaf: sum r / sum |r|(1-|r|), per class
Curv(x) == RMul(RAbs(x), RSub(1, RAbs(x)))
Num(y, rows, k) == VSumRows(y, rows, k)
Den(y, rows, k) == VSumRows([r \in 1..Len(y) |-> [j \in 1..k |-> Curv(y[r][j])]], rows, k)
Newton(y, rows, k) == LET nu == Num(y, rows, k) de == Den(y, rows, k) IN
   [j \in 1..k |-> IF REq(de[j], 0) THEN ROf(0) ELSE RMul(RDiv(k - 1, k), RDiv(nu[j], de[j]))]
LeafOutput(kind, y, rows, k) == IF kind = "reg" THEN MeanOf(y, rows, k) ELSE Newton(y, rows, k)
\* what a leaf adds (before the rate): itself, or the expansion of (largest value, its class)
Expand(mx, c, k) == [j \in 1..k |-> IF j = c THEN ROf(mx) ELSE RApprox(RDiv(RSub(0, mx), k - 1))]
FirstArgMax(v) == CHOOSE c \in 1..Len(v) : /\ \A d \in 1..Len(v) : RLe(v[d], v[c])
                                           /\ \A d \in 1..(c - 1) : RLt(v[d], v[c])
Stored(kind, v) == IF kind = "amg" THEN [mx |-> VMax(v), class |-> FirstArgMax(v)] ELSE [out |-> v]
Adds(kind, st, k) == IF kind = "amg" THEN Expand(st.mx, st.class, k) ELSE VOf(st.out)

\* ---- steps
BoostInit == b = [n |-> 0] /\ init = <<>> /\ scores = <<>> /\ ens = <<>> /\ round = 0
BeginBoost(q, guess) == b' = q /\ init' = guess /\ scores' = [r \in 1..q.n |-> guess] /\ ens' = <<>> /\ round' = 0
\* the learning problem of a round; noise: bound on the error of the implementation's residuals
RoundProblem(noise) == [rk |-> b.rk, y |-> TLCEval([r \in 1..b.n |-> Residual(b, r, scores[r])]), k |-> b.k, n |-> b.n, noise |-> noise, max |-> b.max]
StartRound(noise) == Begin(TLCEval(RoundProblem(noise))) /\ UNCHANGED bvars
\* out: the stored output of every leaf of the grown tree
Update(out) == LET add == TLCEval([x \in DOMAIN out |-> VScale(b.lr, Adds(b.kind, out[x], b.k))])
                   home == [r \in 1..b.n |-> CHOOSE x \in DOMAIN out : \E i \in 1..Len(tree[x].rows) : tree[x].rows[i] = r] IN
   /\ scores' = TLCEval([r \in 1..b.n |-> LET s == VAdd(scores[r], add[home[r]]) IN IF b.kind = "reg" THEN s ELSE [j \in 1..b.k |-> RApprox(s[j])]])
   /\ ens' = Append(ens, [x \in DOMAIN tree |-> IF tree[x].leaf THEN [leaf |-> TRUE, out |-> out[x]]
                                                ELSE [leaf |-> FALSE, c |-> tree[x].c, t |-> tree[x].t, thr |-> tree[x].thr]])
   /\ round' = round + 1 /\ UNCHANGED <<b, init>>

\* ---- asking the ensemble
RECURSIVE LeafFor(_, _, _)
LeafFor(tr, q, x) == IF tr[x].leaf THEN tr[x].out ELSE LeafFor(tr, q, x \o (IF OrdLe(tr[x].thr, q[tr[x].c]) THEN "T" ELSE "F"))
RECURSIVE LeafForRow(_, _, _)
LeafForRow(tr, r, x) == IF tr[x].leaf THEN tr[x].out ELSE LeafForRow(tr, r, x \o (IF b.rk[tr[x].c][r] >= tr[x].t THEN "T" ELSE "F"))
ScoreOf(lv) == LET RECURSIVE Sum(_)                                  \* lv: the leaves reached, one per tree
                   Sum(i) == IF i = 0 THEN init ELSE VAdd(Sum(i - 1), VScale(b.lr, Adds(b.kind, lv[i], b.k)))
               IN  Sum(Len(lv))
LeavesFor(q, t) == [i \in 1..t |-> LeafFor(ens[i], q, "")]
LeavesForRow(r, t) == [i \in 1..t |-> LeafForRow(ens[i], r, "")]
TrainError == VSum([r \in 1..b.n |-> VSumSq(VSub(b.y[r], scores[r]))])
=============================================================================
