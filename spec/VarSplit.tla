------------------------------ MODULE VarSplit ------------------------------
(* Variance-greedy splitting, exactly.  A learning problem is a record        *)
(*   rk : a sequence of columns; rk[c][r] is the dense rank of row r in       *)
(*        column c (only the order of feature values matters)                 *)
(*   y  : the label vectors (rationals), one per row;   k : their length      *)
(*   n  : number of rows;  noise : bound on the error of each label entry as  *)
(*        seen by the implementation (0 when the labels are given data)       *)
(* A group is an ascending sequence of row numbers.                           *)
EXTENDS Rat, SequencesExt

SqNorm(S, n) == RDiv(VSumSq(S), n)                       \* |S|^2 / n
RowsLt(key, t, g) == SelectSeq(g, LAMBDA r : key[r] < t)
RowsGe(key, t, g) == SelectSeq(g, LAMBDA r : key[r] >= t)
Total(p, g)  == VSumRows(p.y, g, p.k)
SumSq(p, g)  == VSum([i \in 1..Len(g) |-> VSumSq(p.y[g[i]])])
\* n times the variance of the labels of a group, summed over the targets: sum |y|^2 - |sum y|^2/n
Scatter(p, g) == IF g = <<>> THEN ROf(0) ELSE RSub(SumSq(p, g), SqNorm(Total(p, g), Len(g)))
Variance(p, g) == RDiv(Scatter(p, g), Len(g))
\* THE DEFINITION of what a question achieves: variance before minus size-weighted variance after
GainDef(p, g, c, t) ==
   RSub(Variance(p, g), RDiv(RAdd(Scatter(p, RowsLt(p.rk[c], t, g)), Scatter(p, RowsGe(p.rk[c], t, g))), Len(g)))

\* values of a column that separate the group (everything but the smallest), in ascending order
Separators(key, g) == LET V == {key[g[i]] : i \in 1..Len(g)}
                          W == {v \in V : \E u \in V : u < v} IN SetToSortSeq(W, <)
\* for every separating value t: between-group score |S_lt|^2/n_lt + |S_ge|^2/n_ge
\* (evaluated by one ascending sweep in java/VarSplitOverrides.java; RatLaws compares)
Cands(key, y, g, k) ==
   LET sep == Separators(key, g) IN
   [i \in 1..Len(sep) |->
      LET L == RowsLt(key, sep[i], g)  R == RowsGe(key, sep[i], g) IN
      <<sep[i], RAdd(SqNorm(VSumRows(y, L, k), Len(L)), SqNorm(VSumRows(y, R, k), Len(R)))>>]
\* the largest such score of a column, -1 when nothing separates
BestCand(key, y, g, k) == LET cs == Cands(key, y, g, k) IN
   FoldLeft(LAMBDA m, x : IF RLt(m, x[2]) THEN x[2] ELSE m, ROf(-1), cs)

\* ---- per group: parent score, best score over all columns, question gains
Parent(p, g) == SqNorm(Total(p, g), Len(g))
BestScore(p, g) == FoldLeft(LAMBDA m, c : RMax(m, BestCand(p.rk[c], p.y, g, p.k)), ROf(-1), [c \in 1..Len(p.rk) |-> c])
Separable(p, g) == \E c \in 1..Len(p.rk) : \E i \in 1..Len(g) : p.rk[c][g[i]] # p.rk[c][g[1]]
\* maximal gain of a group (0 when no question separates its rows)
MaxGain(p, g) == IF Separable(p, g) THEN RDiv(RSub(BestScore(p, g), Parent(p, g)), Len(g)) ELSE ROf(0)
Separates(p, g, c, t) == /\ c \in 1..Len(p.rk)
                         /\ \E i \in 1..Len(g) : p.rk[c][g[i]] < t
                         /\ \E i \in 1..Len(g) : p.rk[c][g[i]] >= t
Gain(p, g, c, t) == LET L == RowsLt(p.rk[c], t, g)  R == RowsGe(p.rk[c], t, g) IN
   IF L = <<>> \/ R = <<>> THEN ROf(0)
   ELSE RDiv(RSub(RAdd(SqNorm(Total(p, L), Len(L)), SqNorm(Total(p, R), Len(R))), Parent(p, g)), Len(g))
AllSame(p, g) == \A i \in 1..Len(g) : p.y[g[i]] = p.y[g[1]]

\* ---- tolerance: rounding of the implementation's running sums, twice (a chosen and a rejected question). Each of
\* the n additions and n subtractions loses half an ulp of the sums, and so does each of the k variances; typical
\* errors are a hundred times smaller. Relative to the mean squared label. Plus the effect of `noise` on every entry
Ulp33 == RDiv(RDiv(1, 65536), 131072)
Ulp49 == RDiv(Ulp33, 65536)
SumTol(n, k) == RMul(4 * n + k + 16, Ulp49)
MaxAbs(p, g) == FoldLeft(LAMBDA m, r : RMax(m, VMaxAbs(p.y[r])), ROf(0), g)
Tol(p, g) == LET ms == RDiv(SumSq(p, g), Len(g)) d == ROf(p.noise) IN
   RAdd(RMul(SumTol(Len(g), p.k), ms), RMul(4 * p.k, RAdd(RMul(RMul(2, d), MaxAbs(p, g)), RMul(d, d))))
=============================================================================
