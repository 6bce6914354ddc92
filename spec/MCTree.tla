------------------------------- MODULE MCTree -------------------------------
(* TreeBuilder with NT workers, on every small learning problem: whatever the *)
(* interleaving, nothing is lost, growth ends, and the tree is the one the    *)
(* sequential recursion builds (properties C05, C06, C07). Variants that must be  *)
(* refuted: "swap" the halves change places; "strict" a row that equals the    *)
(* threshold goes to the false side; "level" the depth is not counted on the    *)
(* false side; "share" workers share one mark and a busy neighbour changes the  *)
(* choice; "forget" a node finished while no other is waiting drops a row.      *)
EXTENDS TreeBuilder, Json
CONSTANTS NR, NC, NK, Vals, Lbls, MaxLv, NT, Variant
Problems == { [rk |-> rk, y |-> y, k |-> NK, n |-> NR, noise |-> 0, max |-> m] :
                rk \in [1..NC -> [1..NR -> Vals]], y \in [1..NR -> [1..NK -> Lbls]], m \in MaxLv }
Init == \E q \in Problems : p = q /\ work = {Root(q)} /\ busy = {} /\ tree = NoTree
ClaimStep == Cardinality(busy) < NT /\ \E w \in work : Claim(w)
\* the first question, in the order of the columns and falling thresholds, instead of the chosen one
OtherChoice(w) == CHOOSE x \in QuestionsOf(p, w) : \A r \in QuestionsOf(p, w) : x[1] < r[1] \/ (x[1] = r[1] /\ x[2] >= r[2])
HalvesV(w, c, t) ==
   LET hi == IF Variant = "strict" THEN SelectSeq(w.rows, LAMBDA r : p.rk[c][r] > t) ELSE RowsGe(p.rk[c], t, w.rows)
       lo == IF Variant = "strict" THEN SelectSeq(w.rows, LAMBDA r : p.rk[c][r] <= t) ELSE RowsLt(p.rk[c], t, w.rows)
       lc == IF Variant = "forget" /\ work = {} /\ Len(lo) > 1 THEN Tail(lo) ELSE lo
   IN { [path |-> w.path \o "T", lv |-> w.lv + 1, rows |-> IF Variant = "swap" THEN lo ELSE hi],
        [path |-> w.path \o "F", lv |-> IF Variant = "level" THEN w.lv ELSE w.lv + 1, rows |-> IF Variant = "swap" THEN hi ELSE lc] }
ChosenV(w) == IF Variant = "share" /\ Cardinality(busy) > 1 THEN OtherChoice(w) ELSE Chosen(w)
FinishStep == \E w \in busy :
   IF IsLeaf(w) THEN FinishLeaf(w)
   ELSE LET x == ChosenV(w) IN
        IF Variant = "none" THEN FinishSplit(w, x[1], x[2], "")
        ELSE /\ work' = work \cup HalvesV(w, x[1], x[2]) /\ busy' = busy \ {w}
             /\ tree' = tree @@ (w.path :> SplitOf(w, x[1], x[2], "")) /\ p' = p
Next == ClaimStep \/ FinishStep
Spec == Init /\ [][Next]_tvars /\ WF_tvars(Next)
Confluent == \A x \in DOMAIN tree : tree[x] = Sequential(Root(p))[x]
Complete  == Grown => DOMAIN tree = DOMAIN Sequential(Root(p))
GrowthEnds == <>Grown
\* case generation: every problem of the model
EmitCase == tree = NoTree /\ busy = {} => PrintT("@@GEN " \o ToJson([rk |-> p.rk, y |-> p.y, max |-> p.max]))
=============================================================================
