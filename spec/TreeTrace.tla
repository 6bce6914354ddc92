----------------------------- MODULE TreeTrace -----------------------------
(* A finished tree, node by node in preorder, then lookups of rows in it      *)
(* (properties C01, C02, C05, C06).                                            *)
EXTENDS TraceBase, TreeBuilder
VARIABLES leaves                     \* leaf paths in preorder
vars == <<l, e, p, work, busy, tree, leaves>>
TraceInit == TBInit /\ TreeInit /\ leaves = <<>>
Col(j) == [i \in 1..Len(Case.rows) |-> Case.rows[i][j]]
Problem == [rk |-> TLCEval([j \in 1..Len(Case.rows[1]) |-> DenseRank(TLCEval(Col(j)))]),
            y |-> TLCEval([i \in 1..Len(Case.labels) |-> VOf(Case.labels[i])]),
            k |-> Case.k, n |-> Len(Case.rows), noise |-> 0, max |-> Case.max]
Load == Loading /\ Begin(TLCEval(Problem)) /\ leaves' = leaves
\* the leaf's payload: every row of the group exactly once, with its own label
Pairs(rows, labels) == [i \in 1..Len(rows) |-> <<rows[i], labels[i]>>]
HoldsRows(w, d) ==
  CASE Case.kind = "row" ->
         /\ Len(d.rows) = Len(d.labels)
         /\ SameBag(TLCEval(Pairs(d.rows, d.labels)), TLCEval([i \in 1..Len(w.rows) |-> <<Case.rows[w.rows[i]], Case.labels[w.rows[i]]>>]))
    [] Case.kind = "sorted" ->
         /\ SameBag(d.labels, TLCEval([i \in 1..Len(w.rows) |-> Case.labels[w.rows[i]]]))
         /\ Len(d.idx) = Len(p.rk) /\ Len(d.vals) = Len(p.rk)
         /\ \A j \in 1..Len(p.rk) : /\ SameBag(d.idx[j], w.rows)
                                    /\ \A i \in 1..Len(d.idx[j]) : d.vals[j][i] = Case.rows[d.idx[j][i]][j]
    [] OTHER -> TRUE                 \* gradient-boosting leaves hold only their output
Here == CHOOSE w \in work : w.path = Ev.p
\* An observed node is a DoneLeaf or DoneSplit step of TreeBuilder; their guards are required by the
\* property they belong to, so that each property is decided on its own.
Leaf == /\ IsEvent("node") /\ ~Ev.tb /\ ~Ev.fb
        /\ Req("node-expected-here", \E w \in work : w.path = Ev.p /\ w.lv = Ev.d)
        /\ For({"C05"}, "leaf-has-data-and-no-branches", Ev.lf /\ Ev.isleaf)
        /\ For({"C05"}, "leaf-not-empty", Here.rows # <<>>)
        /\ For({"C05"}, "leaf-holds-its-rows-with-their-labels", HoldsRows(Here, Ev.leaf))
        /\ For({"C06", "C01", "C02"}, "leaf-only-at-limit-or-nothing-to-gain", MayStop(Here))
        /\ PutLeaf(Here, work \ {Here}, busy) /\ leaves' = Append(leaves, Ev.p)
Split == /\ IsEvent("node") /\ (Ev.tb \/ Ev.fb)
         /\ Req("node-expected-here", \E w \in work : w.path = Ev.p /\ w.lv = Ev.d)
         /\ Req("column-exists", Ev.col \in 1..Len(p.rk))
         /\ For({"C05"}, "inner-node-has-two-branches-and-no-data", Ev.tb /\ Ev.fb /\ ~Ev.lf /\ ~Ev.isleaf)
         /\ LET t == RankOf(Col(Ev.col), Ev.thr) IN
            /\ For({"C05", "C02"}, "both-sides-non-empty", Separates(p, Here.rows, Ev.col, t))
            /\ For({"C06"}, "depth-limit", Here.lv < p.max)
            /\ For({"C06", "C02"}, "pure-or-inseparable-node-not-divided", MaySplit(Here))
            /\ For({"C06", "C01", "C02"}, "best-question", Best(Here, Ev.col, t))
            /\ PutSplit(Here, Ev.col, t, Ev.thr, work \ {Here}, busy)
         /\ leaves' = leaves
LeafNo(x) == CHOOSE i \in 1..Len(leaves) : leaves[i] = x
\* lookups: `row` > 0 says that the query is training row number `row`
Look == /\ IsEvent("look") /\ Req("all-nodes-present", Grown)
        /\ LET x == LeafOfQuery(Ev.q) IN
           /\ For({"C05"}, "lookup-follows-the-questions", Ev.id = LeafNo(x) /\ Ev.id2 = LeafNo(x))
           /\ For({"C05"}, "training-row-is-led-to-its-leaf", Ev.row > 0 => \E i \in 1..Len(tree[x].rows) : tree[x].rows[i] = Ev.row)
        /\ UNCHANGED <<p, work, busy, tree, leaves>>
End == IsEvent("end") /\ Req("all-nodes-present", Grown) /\ UNCHANGED <<p, work, busy, tree, leaves>>
TraceNext == (e = 0 /\ Load) \/ (e > 0 /\ (Leaf \/ Split \/ Look \/ End))
View == <<l, e>>
=============================================================================
