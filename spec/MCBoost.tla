------------------------------- MODULE MCBoost -------------------------------
(* Boosting on every small learning problem (properties C11-C16, C17, C20).   *)
EXTENDS Boosting, Json
CONSTANTS Kinds, NR, NC, NK, Vals, Lbls, Rates, MaxLv, Rounds, LeafRule
VARIABLES pc, errs
vars == <<tvars, bvars, pc, errs>>
\* classifiers: labels are classes; regression: numbers
Labels(kind) == IF kind = "reg" THEN [1..NR -> [1..NK -> Lbls]] ELSE {[r \in 1..NR |-> [j \in 1..NK |-> IF j = f[r] THEN 1 ELSE 0]] : f \in [1..NR -> 1..NK]}
Problems == UNION { { [rk |-> rk, y |-> y, k |-> NK, n |-> NR, kind |-> kind, max |-> m, lr |-> RDiv(r, 2)] :
                rk \in [1..NC -> [1..NR -> Vals]], y \in Labels(kind), m \in MaxLv, r \in Rates } : kind \in Kinds }
Init == /\ TreeInit /\ pc = "start" /\ errs = <<>> /\ init = <<>> /\ scores = <<>> /\ ens = <<>> /\ round = 0
        /\ b \in Problems
Begins == /\ pc = "start" /\ pc' = "round" /\ BeginBoost(b, FirstGuess(b)) /\ errs' = <<>> /\ UNCHANGED tvars
Starts == /\ pc = "round" /\ round < Rounds /\ StartRound(0) /\ pc' = "grow" /\ errs' = Append(errs, TrainError)
Grow == /\ pc = "grow" /\ tree' = Sequential(Root(p)) /\ work' = {} /\ pc' = "update" /\ UNCHANGED <<p, busy, errs, bvars>>
OutOf(rows) == IF LeafRule = "sum" THEN VSumRows(p.y, rows, p.k) ELSE LeafOutput(b.kind, p.y, rows, p.k)
Outs == [x \in {y \in DOMAIN tree : tree[y].leaf} |-> Stored(b.kind, TLCEval(OutOf(tree[x].rows)))]
Updates == /\ pc = "update" /\ Update(TLCEval(Outs)) /\ pc' = "round" /\ UNCHANGED <<tvars, errs>>
Next == Begins \/ Starts \/ Grow \/ Updates
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* ---- what must hold
\* C11/C15: what training believes is what asking the ensemble gives
TrainedIsAsked == pc = "round" => \A r \in 1..b.n : \A j \in 1..b.k :
   RLe(RAbs(RSub(scores[r][j], ScoreOf(LeavesForRow(r, Len(ens)))[j])), RMul(RDiv(1, RMul(1048576, RMul(1048576, 1048576))), RAdd(1, RAbs(scores[r][j]))))
\* C13: the error never increases (regression)
ErrorShrinks == b.kind = "reg" /\ pc = "round" /\ errs # <<>> => RLe(TrainError, errs[Len(errs)])
ErrorsShrink == b.kind = "reg" => \A i \in 1..(Len(errs) - 1) : RLe(errs[i + 1], errs[i])
\* C12/C05: with rate 1 and unlimited depth, the first round fits rows that only a constant-free tree can
\* separate: every leaf is left with equal labels unless no question gains anything in it
FitsExactly == b.kind = "reg" /\ pc = "round" /\ round = 1 /\ REq(b.lr, 1) /\ b.max >= NR =>
   \A x \in DOMAIN tree : tree[x].leaf => LET rows == tree[x].rows IN
      \/ \A i \in 1..Len(rows) : VSub(b.y[rows[i]], scores[rows[i]]) = VZero(b.k)
      \/ REq(MaxGain(p, rows), 0)
\* C14/C16: residuals of classifiers sum to zero, stay in (-1, 1), and every leaf step is defined
Small == RDiv(1, RMul(1048576, RMul(1048576, 1048576)))
SoftResiduals == b.kind # "reg" /\ pc = "grow" => \A r \in 1..b.n :
   /\ RLe(RAbs(VSum(p.y[r])), Small)
   /\ \A j \in 1..b.k : RLe(RAbs(p.y[r][j]), 1)
CurvPositive == b.kind # "reg" /\ pc = "grow" => \A j \in 1..b.k : RLt(0, Den(p.y, AllRows(p), p.k)[j])
AmgZeroSum == b.kind = "amg" /\ pc = "round" => \A i \in 1..Len(ens) : \A x \in DOMAIN ens[i] :
   ens[i][x].leaf => /\ RLe(RAbs(VSum(Adds("amg", ens[i][x].out, b.k))), Small)
                     /\ RLe(0, RAdd(ens[i][x].out.mx, Small))
\* C16: a classifier whose trees separate the classes never loses a perfect fit
OwnClass(r) == CHOOSE j \in 1..b.k : REq(b.y[r][j], 1)
Right(r) == \A j \in 1..b.k : j = OwnClass(r) \/ RLt(scores[r][j], scores[r][OwnClass(r)])
KeepsFit == [][ (b.kind # "reg" /\ pc = "update" /\ (\A r \in 1..b.n : Right(r))
                 /\ \A x \in DOMAIN tree : tree[x].leaf => \A i \in 1..Len(tree[x].rows) : b.y[tree[x].rows[i]] = b.y[tree[x].rows[1]])
                => \A r \in 1..b.n : Right(r)' ]_vars
\* C17: more rounds only append
OnlyAppends == [][round > 0 => Len(ens') >= Len(ens) /\ SubSeq(ens', 1, Len(ens)) = ens /\ init' = init]_vars
Ends == <>(pc = "round" /\ round = Rounds)
EmitCase == pc = "start" => PrintT("@@GEN " \o ToJson([kind |-> b.kind, rk |-> b.rk, y |-> b.y, max |-> b.max, lr |-> RDouble(b.lr)]))
=============================================================================
