------------------------------ MODULE MCLocal ------------------------------
(* Growing is local (property C26): on every small problem, a tree with a     *)
(* deeper limit is the same tree going on below the old limit, and what hangs *)
(* below a node is the tree of the rows that reach it. Variant "stump": on    *)
(* the last level another question is taken; "memory": a group that was       *)
(* divided before is judged by the rows of its parent.                        *)
EXTENDS Greedy, Json
CONSTANTS NR, NC, NK, Vals, Lbls, MaxLv, Variant
VARIABLES p, at
vars == <<p, at>>
\* only the order of the values matters: dense ranks suffice
DRank(col) == [i \in 1..NR |-> Cardinality({v \in {col[j] : j \in 1..NR} : v < col[i]})]
Columns == {f \in [1..NR -> Vals] : DRank(f) = f}
Problems == { [rk |-> rk, y |-> y, k |-> NK, n |-> NR, noise |-> 0, max |-> mx] :
               rk \in [1..NC -> Columns], y \in [1..NR -> [1..NK -> Lbls]], mx \in MaxLv }
\* the worst separating question, for the variant
WorstOf(q, w) == CHOOSE x \in QuestionsOf(q, w) : \A r \in QuestionsOf(q, w) : x[1] < r[1] \/ (x[1] = r[1] /\ x[2] >= r[2])
RECURSIVE Grow(_, _, _)
Grow(q, w, par) ==
   LET stop == IF Variant = "memory" THEN w.lv = q.max \/ ~Separable(q, w.rows) \/ (AllSame(q, w.rows) /\ AllSame(q, par)) ELSE LeafFirst(q, w) IN
   IF stop THEN w.path :> LeafOf(w)
   ELSE LET x == IF Variant = "stump" /\ w.lv + 1 = q.max THEN WorstOf(q, w) ELSE ChosenOf(q, w) IN
        (w.path :> SplitOf(w, x[1], x[2], "")) @@
        Grow(q, [path |-> w.path \o "T", lv |-> w.lv + 1, rows |-> RowsGe(q.rk[x[1]], x[2], w.rows)], w.rows) @@
        Grow(q, [path |-> w.path \o "F", lv |-> w.lv + 1, rows |-> RowsLt(q.rk[x[1]], x[2], w.rows)], w.rows)
Tree(q) == Grow(q, Root(q), AllRows(q))
Deeper(q) == Tree([q EXCEPT !.max = @ + 1])
\* the problem of some rows alone
Part(q, rows, mx) == [q EXCEPT !.rk = [c \in 1..Len(q.rk) |-> [i \in 1..Len(rows) |-> q.rk[c][rows[i]]]],
                               !.y = [i \in 1..Len(rows) |-> q.y[rows[i]]], !.n = Len(rows), !.max = mx]
Init == p \in Problems /\ at = 0
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
DeeperOnlyExtends == LET t == Tree(p) d == Deeper(p) IN
   \A x \in DOMAIN t \cup DOMAIN d : IF x \notin DOMAIN t THEN Len(x) = p.max + 1
                                     ELSE x \in DOMAIN d /\ (t[x] = d[x] \/ (Len(x) = p.max /\ t[x].leaf /\ t[x].rows = d[x].rows))
SubtreeIsTree == LET t == Tree(p) IN
   \A x \in DOMAIN t : LET rows == t[x].rows s == Tree(Part(p, rows, p.max - Len(x))) IN
      \A z \in DOMAIN s : /\ (x \o z) \in DOMAIN t
                          /\ LET a == t[x \o z] b == s[z] IN a.leaf = b.leaf /\ a.c = b.c /\ a.t = b.t /\ a.rows = [i \in 1..Len(b.rows) |-> rows[b.rows[i]]]
EmitCase == PrintT("@@GEN " \o ToJson([rk |-> p.rk, y |-> p.y, max |-> p.max]))
=============================================================================
