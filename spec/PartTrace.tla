----------------------------- MODULE PartTrace -----------------------------
(* Recorded divisions of data sets, row-wise (C03) and of pre-sorted columns  *)
(* (C04). The state `g` is the group of rows the current data set must hold;  *)
(* a recorded division is the Divide step of IndexPartition, whose invariant  *)
(* SameGroups says that the sorted representation and `g` stay in step.       *)
EXTENDS TraceBase, VarSplit
VARIABLE g
vars == <<l, e, g>>
TraceInit == TBInit /\ g = <<>>
N == Len(Case.rows)
All == [i \in 1..N |-> i]
Load == Loading /\ g' = All
NC == Case.nc
Val(r, c) == Case.rows[r][c]
Ge(c, t) == SelectSeq(g, LAMBDA r : OrdLe(t, Val(r, c)))
Lt(c, t) == SelectSeq(g, LAMBDA r : ~OrdLe(t, Val(r, c)))
\* ---- row-wise: rows and labels in original order, columns the transposition
Transposed(rows, cols) == IF rows = <<>> THEN \A j \in 1..Len(cols) : cols[j] = <<>>
   ELSE Len(cols) = NC /\ \A j \in 1..NC : /\ Len(cols[j]) = Len(rows)
                                            /\ \A i \in 1..Len(rows) : cols[j][i] = rows[i][j]
HoldsRows(d, grp) == d.rows = [i \in 1..Len(grp) |-> Case.rows[grp[i]]]
HoldsLabels(d, grp) == d.labels = [i \in 1..Len(grp) |-> Case.labels[grp[i]]]
Divide == /\ IsEvent("divide")
          /\ LET hi == Ge(Ev.col, Ev.thr)  lo == Lt(Ev.col, Ev.thr) IN
             /\ For({"C03"}, "rows-of-the-true-side", HoldsRows(Ev.t, hi))
             /\ For({"C03"}, "rows-of-the-false-side", HoldsRows(Ev.f, lo))
             /\ For({"C03"}, "labels-stay-with-their-rows", HoldsLabels(Ev.t, hi) /\ HoldsLabels(Ev.f, lo))
             /\ For({"C03"}, "columns-are-the-transposed-rows", Transposed(Ev.t.rows, Ev.t.cols) /\ Transposed(Ev.f.rows, Ev.f.cols))
             /\ For({"C03"}, "question-answers", Ev.solve = [i \in 1..Len(g) |-> OrdLe(Ev.thr, Val(g[i], Ev.col))])
             /\ g' = IF Ev.side = "T" THEN hi ELSE lo
\* ---- pre-sorted columns of (value, row number)
Column(vals, idx, grp, c) ==
   /\ Len(vals) = Len(idx) /\ SameBag(idx, grp)
   /\ \A i \in 1..Len(idx) : vals[i] = Val(idx[i], c)
   /\ \A i \in 1..(Len(idx) - 1) : OrdLe(vals[i], vals[i + 1])
SortedHolds(d, grp) ==
   /\ Len(d.vals) = NC /\ Len(d.idx) = NC
   /\ \A c \in 1..NC : Column(d.vals[c], d.idx[c], grp, c)
Start == /\ IsEvent("start")
         /\ For({"C04"}, "sorted-columns-hold-every-value-once-ascending", SortedHolds(Ev, g))
         /\ For({"C04"}, "labels-in-order", HoldsLabels(Ev, g))
         /\ g' = g
SDivide == /\ IsEvent("sdivide")
           /\ LET hi == Ge(Ev.col, Ev.thr)  lo == Lt(Ev.col, Ev.thr) IN
              /\ For({"C04"}, "labels-of-the-true-side", HoldsLabels(Ev.t, hi))
              /\ For({"C04"}, "labels-of-the-false-side", HoldsLabels(Ev.f, lo))
              /\ For({"C04"}, "columns-of-the-true-side", SortedHolds(Ev.t, hi))
              /\ For({"C04"}, "columns-of-the-false-side", SortedHolds(Ev.f, lo))
              /\ g' = IF Ev.side = "T" THEN hi ELSE lo
\* one column sorted on its own
Sorter == /\ IsEvent("sorter")
          /\ For({"C04"}, "sorted-column-holds-every-value-once-ascending", Column(Ev.vals, Ev.idx, g, 1))
          /\ g' = g
TraceNext == (e = 0 /\ Load) \/ (e > 0 /\ (Divide \/ Start \/ SDivide \/ Sorter))
View == <<l, e>>
=============================================================================
