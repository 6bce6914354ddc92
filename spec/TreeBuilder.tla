---------------------------- MODULE TreeBuilder ----------------------------
(* Growing one tree. Nodes waiting to be examined are in `work`; a worker     *)
(* claims one, looks for the best question, and either makes it a leaf or     *)
(* divides its rows and puts both halves into `work` (fork-join: any worker   *)
(* may take any waiting node in any order).                                   *)
EXTENDS Greedy
VARIABLES p, work, busy, tree
tvars == <<p, work, busy, tree>>

NoTree == <<>>
NoProblem == [rk |-> <<>>, y |-> <<>>, k |-> 0, n |-> 0, noise |-> 0, max |-> 0]
TreeInit == p = NoProblem /\ work = {} /\ busy = {} /\ tree = NoTree
Begin(q) == p' = q /\ work' = {Root(q)} /\ busy' = {} /\ tree' = NoTree
Grown == work = {} /\ busy = {}

\* ---- when a node has to be, and when it may be, a leaf
MustStop(w) == Stops(p, w)
NothingToGain(w) == RLe(MaxGain(p, w.rows), Tol(p, w.rows))
MayStop(w) == MustStop(w) \/ NothingToGain(w)
\* ---- which questions may divide it
MaySplit(w) == ~MustStop(w)
Best(w, c, t) == RLe(RSub(MaxGain(p, w.rows), Gain(p, w.rows, c, t)), Tol(p, w.rows))

Claim(w) == w \in work /\ work' = work \ {w} /\ busy' = busy \cup {w} /\ UNCHANGED <<p, tree>>
Halves(w, c, t) == { [path |-> w.path \o "T", lv |-> w.lv + 1, rows |-> RowsGe(p.rk[c], t, w.rows)],
                     [path |-> w.path \o "F", lv |-> w.lv + 1, rows |-> RowsLt(p.rk[c], t, w.rows)] }
\* state updates (without their legality)
PutLeaf(w, wk, bs) == work' = wk /\ busy' = bs /\ tree' = tree @@ (w.path :> LeafOf(w)) /\ p' = p
PutSplit(w, c, t, thr, wk, bs) == work' = wk \cup Halves(w, c, t) /\ busy' = bs
                                  /\ tree' = tree @@ (w.path :> SplitOf(w, c, t, thr)) /\ p' = p
\* a claimed node is finished
FinishLeaf(w)              == w \in busy /\ MayStop(w) /\ PutLeaf(w, work, busy \ {w})
FinishSplit(w, c, t, thr)  == w \in busy /\ MaySplit(w) /\ Separates(p, w.rows, c, t) /\ Best(w, c, t)
                              /\ PutSplit(w, c, t, thr, work, busy \ {w})
\* Claim and Finish in one step: what a finished tree shows of a node
DoneLeaf(w)                == w \in work /\ MayStop(w) /\ PutLeaf(w, work \ {w}, busy)
DoneSplit(w, c, t, thr)    == w \in work /\ MaySplit(w) /\ Separates(p, w.rows, c, t) /\ Best(w, c, t)
                              /\ PutSplit(w, c, t, thr, work \ {w}, busy)

\* ---- the choices of the sequential recursion (module Greedy)
Chosen(w) == ChosenOf(p, w)
IsLeaf(w) == LeafFirst(p, w)
Sequential(w) == GreedyFrom(p, w)

\* ---- looking a row up: answer the questions from the root
RECURSIVE WalkRow(_, _, _)
WalkRow(tr, r, x) == IF tr[x].leaf THEN x ELSE WalkRow(tr, r, x \o (IF p.rk[tr[x].c][r] >= tr[x].t THEN "T" ELSE "F"))
RECURSIVE WalkQuery(_, _, _)
WalkQuery(tr, q, x) == IF tr[x].leaf THEN x ELSE WalkQuery(tr, q, x \o (IF OrdLe(tr[x].thr, q[tr[x].c]) THEN "T" ELSE "F"))
LeafOfRow(r) == WalkRow(tree, r, "")
LeafOfQuery(q) == WalkQuery(tree, q, "")

\* ---- what must hold at any time
Groups == {w.rows : w \in work \cup busy} \cup {tree[x].rows : x \in {x \in DOMAIN tree : tree[x].leaf}}
NothingLostOrMixed ==        \* waiting, claimed and finished leaves together hold every row exactly once
   /\ UNION {RangeOf(g) : g \in Groups} = 1..p.n
   /\ \A w \in work \cup busy : \A r \in RangeOf(w.rows) :
         /\ \A x \in DOMAIN tree : tree[x].leaf => r \notin RangeOf(tree[x].rows)
         /\ \A v \in (work \cup busy) \ {w} : r \notin RangeOf(v.rows)
   /\ \A x, z \in DOMAIN tree : tree[x].leaf /\ tree[z].leaf /\ x # z => RangeOf(tree[x].rows) \cap RangeOf(tree[z].rows) = {}
NoEmptyNode == p.n > 0 => /\ \A w \in work \cup busy : w.rows # <<>>
                          /\ \A x \in DOMAIN tree : tree[x].rows # <<>>
DepthBounded == /\ \A x \in DOMAIN tree : tree[x].lv <= p.max /\ tree[x].lv = Len(x)
                /\ \A x \in DOMAIN tree : tree[x].lv = p.max => tree[x].leaf
LookupAgrees == Grown /\ tree # NoTree => \A r \in 1..p.n : r \in RangeOf(tree[LeafOfRow(r)].rows)
=============================================================================
