-------------------------------- MODULE Twin --------------------------------
(* Two trees grown from corresponding data (properties C08, C22, C25, C26).   *)
(* Row i of the second data set (problem q2) is a copy of row m[i] of the     *)
(* first (problem p); column c of the second orders the rows like column      *)
(* cm[c] of the first (0: no such column). Its labels follow those of the     *)
(* first by a law: target j is a * (target src[j]) + s[j] (src 0: constant).  *)
(* The trees are read side by side: `pair` holds the groups of the first data *)
(* set that both have at the same place; `loose` the places below which they  *)
(* may differ, because they chose different questions of equal merit there.   *)
EXTENDS Greedy
VARIABLES p, q2, law, m, cm, pair, loose, swapped
tw == <<p, q2, law, m, cm, pair, loose, swapped>>
Apply(lw, v) == [j \in 1..Len(lw.src) |-> IF lw.src[j] = 0 THEN lw.s[j] ELSE RAdd(RMul(lw.a, v[lw.src[j]]), lw.s[j])]
SameLabels(k) == [src |-> [j \in 1..k |-> j], a |-> ROf(1), s |-> [j \in 1..k |-> ROf(0)]]
\* every target of the first is there equally often
Often(lw, c) == Cardinality({j \in 1..Len(lw.src) : lw.src[j] = c})
LawOk(lw, k) == /\ \A j \in 1..Len(lw.src) : lw.src[j] \in 0..k
                /\ \A c \in 1..k : Often(lw, c) = Often(lw, 1) /\ Often(lw, c) > 0
                /\ ~REq(lw.a, 0)
\* what the variances are multiplied with
Factor(lw) == RMul(Often(lw, 1), RMul(lw.a, lw.a))
MembersOf(gs) == SelectSeq([i \in 1..Len(m) |-> i], LAMBDA i : m[i] \in gs)
Members2(g) == MembersOf(RangeOf(g))
\* groups of the first data set that a question of the second makes
Side2(c, t, g, up) == LET s == Members2(g) IN {m[i] : i \in RangeOf(IF up THEN RowsGe(q2.rk[c], t, s) ELSE RowsLt(q2.rk[c], t, s))}
TwinInit == p = [n |-> 0] /\ q2 = [n |-> 0] /\ law = <<>> /\ m = <<>> /\ cm = <<>> /\ pair = {} /\ loose = {} /\ swapped = FALSE
BeginTwin(q, r2, lw, mm, cc) == /\ p' = q /\ q2' = r2 /\ law' = lw /\ m' = mm /\ cm' = cc /\ loose' = {} /\ swapped' = FALSE
                            /\ pair' = {[path |-> "", g |-> [i \in 1..q.n |-> i]]}
SameDivision(g, c1, t1, c2, t2) == /\ Side2(c2, t2, g, TRUE) = RangeOf(RowsGe(p.rk[c1], t1, g))
                                   /\ Side2(c2, t2, g, FALSE) = RangeOf(RowsLt(p.rk[c1], t1, g))
\* what dividing g by the second tree's question achieves
GainOf(g, above, below) == LET up == SelectSeq(g, LAMBDA r : r \in above)
                               lo == SelectSeq(g, LAMBDA r : r \in below) IN
   IF up = <<>> \/ lo = <<>> \/ Len(up) + Len(lo) # Len(g) THEN ROf(-1)
   ELSE RDiv(RSub(RAdd(SqNorm(Total(p, up), Len(up)), SqNorm(Total(p, lo), Len(lo))), Parent(p, g)), Len(g))
Gain2(g, c2, t2) == GainOf(g, Side2(c2, t2, g, TRUE), Side2(c2, t2, g, FALSE))
\* both trees divide the group
BothDivide(w, c1, t1, c2, t2) ==
   IF SameDivision(w.g, c1, t1, c2, t2)
   THEN /\ pair' = (pair \ {w}) \cup { [path |-> w.path \o "T", g |-> RowsGe(p.rk[c1], t1, w.g)],
                                       [path |-> w.path \o "F", g |-> RowsLt(p.rk[c1], t1, w.g)] }
        /\ loose' = loose /\ swapped' = (swapped \/ cm[c2] # c1)
   ELSE /\ pair' = pair \ {w} /\ loose' = loose \cup {w.path} /\ swapped' = TRUE
SameQuestion(c1, t1, c2, t2) == cm[c2] = c1 => t1 = t2          \* corresponding columns have the same ranks
\* within the rounding of one of the two (gains in units of the first)
NotMore(x, g) == RLe(x, Tol(p, g)) \/ RLe(x, RDiv(Tol(q2, Members2(g)), Factor(law)))
EqualMerit(g, c1, t1, c2, t2) == LET a == Gain(p, g, c1, t1) b == Gain2(g, c2, t2) IN
   RLe(ROf(0), b) /\ NotMore(RAbs(RSub(a, b)), g)
MayPair(w, c1, t1, c2, t2) == IF SameDivision(w.g, c1, t1, c2, t2) THEN SameQuestion(c1, t1, c2, t2) ELSE EqualMerit(w.g, c1, t1, c2, t2)
BothStop(w) == pair' = pair \ {w} /\ UNCHANGED <<loose, swapped>>
OneStops(w) == pair' = pair \ {w} /\ loose' = loose \cup {w.path} /\ swapped' = TRUE
=============================================================================
