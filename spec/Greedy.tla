------------------------------- MODULE Greedy -------------------------------
(* The tree that the sequential recursion grows for a learning problem q      *)
(* (VarSplit; q.max: depth limit): among equally good questions it takes the  *)
(* first column and the lowest threshold. A tree is a function from paths     *)
(* ("": root, T/F: true/false branch) to nodes.                               *)
EXTENDS VarSplit
RangeOf(s) == {s[i] : i \in 1..Len(s)}
AllRows(q) == [i \in 1..q.n |-> i]
Root(q) == [path |-> "", lv |-> 0, rows |-> AllRows(q)]
LeafOf(w) == [leaf |-> TRUE, rows |-> w.rows, lv |-> w.lv, c |-> 0, t |-> 0, thr |-> ""]
SplitOf(w, c, t, thr) == [leaf |-> FALSE, rows |-> w.rows, lv |-> w.lv, c |-> c, t |-> t, thr |-> thr]
\* with noisy labels, equal labels may look different to the implementation
Stops(q, w) == w.lv = q.max \/ (REq(q.noise, 0) /\ AllSame(q, w.rows)) \/ ~Separable(q, w.rows)
QuestionsOf(q, w) == {<<c, t>> \in (1..Len(q.rk)) \X UNION {RangeOf(q.rk[c]) : c \in 1..Len(q.rk)} : Separates(q, w.rows, c, t)}
ChosenOf(q, w) == LET B == {x \in QuestionsOf(q, w) : REq(Gain(q, w.rows, x[1], x[2]), MaxGain(q, w.rows))} IN
   CHOOSE x \in B : \A r \in B : x[1] < r[1] \/ (x[1] = r[1] /\ x[2] <= r[2])
LeafFirst(q, w) == Stops(q, w) \/ REq(MaxGain(q, w.rows), 0)
RECURSIVE GreedyFrom(_, _)
GreedyFrom(q, w) ==
   IF LeafFirst(q, w) THEN w.path :> LeafOf(w)
   ELSE LET x == ChosenOf(q, w) IN
        (w.path :> SplitOf(w, x[1], x[2], "")) @@
        GreedyFrom(q, [path |-> w.path \o "T", lv |-> w.lv + 1, rows |-> RowsGe(q.rk[x[1]], x[2], w.rows)]) @@
        GreedyFrom(q, [path |-> w.path \o "F", lv |-> w.lv + 1, rows |-> RowsLt(q.rk[x[1]], x[2], w.rows)])
GreedyTree(q) == GreedyFrom(q, Root(q))
=============================================================================
