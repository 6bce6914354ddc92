--------------------------- MODULE IndexPartition ---------------------------
(* Dividing a dataset held as pre-sorted columns (property C04). `cols` is    *)
(* the representation the code works on; `g` is the group of rows by the      *)
(* row-wise rule. A step divides the current dataset and goes on with one of  *)
(* the halves.  WhenNoneReaches = "end" is the code; "start" is the defect    *)
(* repaired by the second fix commit.                                         *)
EXTENDS VarSplit
CONSTANTS NR, NC, Vals, Thrs, MaxSteps, WhenNoneReaches
VARIABLES rk, g, cols, labs, steps
vars == <<rk, g, cols, labs, steps>>
All == [i \in 1..NR |-> i]
\* columns as sequences of row numbers in ascending order of value
SortedCols(rank, grp) == [c \in 1..Len(rank) |-> SortBy(rank[c], grp)]
Init == /\ rk \in [1..NC -> [1..NR -> Vals]] /\ g = All
        /\ cols = SortedCols(rk, All) /\ labs = All /\ steps = 0
\* the code's division: marks from the first position whose value reaches t, then every column is filtered
First(rank, cs, c, t) == LET reach == {i \in 1..Len(cs[c]) : rank[c][cs[c][i]] >= t} IN
   IF reach # {} THEN CHOOSE i \in reach : \A j \in reach : i <= j
   ELSE IF WhenNoneReaches = "end" THEN Len(cs[c]) + 1 ELSE 1
Marked(rank, cs, c, t) == {cs[c][i] : i \in First(rank, cs, c, t)..Len(cs[c])}
FalseMarked(rank, cs, c, t) == {cs[c][i] : i \in {i \in 1..Len(cs[c]) : rank[c][cs[c][i]] < t /\ \A j \in 1..i : rank[c][cs[c][j]] < t}}
KeepCols(cs, S) == [c \in 1..Len(cs) |-> SelectSeq(cs[c], LAMBDA r : r \in S)]
Rest(cs, S) == [c \in 1..Len(cs) |-> SelectSeq(cs[c], LAMBDA r : r \notin S)]
KeepLabs(n, S) == SelectSeq([i \in 1..n |-> i], LAMBDA r : r \in S)
Divide(c, t, side) ==
  LET M == Marked(rk, cols, c, t)  N == FalseMarked(rk, cols, c, t) IN
  /\ steps < MaxSteps /\ steps' = steps + 1
  /\ cols' = IF side = "T" THEN KeepCols(cols, M) ELSE Rest(cols, M)
  /\ labs' = IF side = "T" THEN KeepLabs(NR, M) ELSE KeepLabs(NR, N \ M)
  /\ g' = IF side = "T" THEN RowsGe(rk[c], t, g) ELSE RowsLt(rk[c], t, g)
  /\ UNCHANGED rk
Next == \E c \in 1..NC : \E t \in Thrs : \E side \in {"T", "F"} : Divide(c, t, side)
Spec == Init /\ [][Next]_vars
SameGroups == labs = g /\ cols = SortedCols(rk, g)
=============================================================================
