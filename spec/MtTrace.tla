------------------------------ MODULE MtTrace ------------------------------
(* Property C07. A case holds one sequential run (its tree, its digest) and   *)
(* then runs with other thread counts and forced schedules. Of a wrapped run  *)
(* the log shows when the examination of each node started and what it found: *)
(* the Claim and Finish steps of TreeBuilder, in any interleaving. Every run  *)
(* must end with the very result of the sequential one.                       *)
EXTENDS TraceBase, TreeBuilder
VARIABLES ref                        \* the sequential tree: path -> [leaf, c, thr]
vars == <<l, e, tvars, ref>>
TraceInit == TBInit /\ TreeInit /\ ref = <<>>
Col(j) == [i \in 1..Len(Case.rows) |-> Case.rows[i][j]]
Problem == [rk |-> TLCEval([j \in 1..Len(Case.rows[1]) |-> DenseRank(TLCEval(Col(j)))]),
            y |-> [i \in 1..Len(Case.labels) |-> <<>>], k |-> 0, n |-> Len(Case.rows), noise |-> 0, max |-> Case.max]
NodeOf(x) == CHOOSE i \in 1..Len(Case.base) : Case.base[i].p = x
Load == Loading /\ Begin(TLCEval(Problem))
        /\ ref' = TLCEval([x \in {Case.base[i].p : i \in 1..Len(Case.base)} |->
             LET nd == Case.base[NodeOf(x)] IN [leaf |-> ~nd.tb, c |-> nd.col, thr |-> nd.thr]])
Run == IsEvent("run") /\ Begin(p) /\ ref' = ref
Start == /\ IsEvent("Start")
         /\ Req("node-exists-and-is-waiting", \E w \in work : w.path = Ev.p /\ w.path \in DOMAIN ref)
         /\ Claim(CHOOSE w \in work : w.path = Ev.p) /\ ref' = ref
Claimed == CHOOSE w \in busy : w.path = Ev.p
Done == /\ IsEvent("Done")
        /\ Req("node-was-claimed", \E w \in busy : w.path = Ev.p)
        /\ IF ref[Ev.p].leaf THEN PutLeaf(Claimed, work, busy \ {Claimed})
           ELSE /\ Req("same-question-as-sequentially", Ev.col = ref[Ev.p].c /\ SameNum(Ev.thr, ref[Ev.p].thr))
                /\ PutSplit(Claimed, Ev.col, RankOf(Col(Ev.col), Ev.thr), Ev.thr, work, busy \ {Claimed})
        /\ ref' = ref
\* a builder may return without examining leaves at the depth limit
Result == /\ IsEvent("result")
          /\ Req("every-claimed-node-finished-and-no-inner-node-left-out", Ev.logged => busy = {} /\ \A w \in work : ref[w.path].leaf)
          /\ Req("same-result-as-the-sequential-run", Ev.digest = Case.bdigest)
          /\ UNCHANGED <<tvars, ref>>
TraceNext == (e = 0 /\ Load) \/ (e > 0 /\ (Run \/ Start \/ Done \/ Result))
View == <<l, e>>
=============================================================================
