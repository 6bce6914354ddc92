----------------------------- MODULE TwinTrace -----------------------------
(* Two recorded trees read side by side (properties C08, C22, C25, C26).      *)
EXTENDS TraceBase, Twin
vars == <<l, e, tw>>
TraceInit == TBInit /\ TwinInit
Col(rows, j) == [i \in 1..Len(rows) |-> rows[i][j]]
Ranks(rows) == [j \in 1..Len(rows[1]) |-> DenseRank(TLCEval(Col(rows, j)))]
Vecs(ls) == [i \in 1..Len(ls) |-> VOf(ls[i])]
CaseLaw == [src |-> Case.law.src, a |-> F64(Case.law.a), s |-> VOf(Case.law.s)]
First == [rk |-> Ranks(Case.rows), y |-> Vecs(Case.labels), k |-> Case.k, n |-> Len(Case.rows), noise |-> 0]
Second == [rk |-> Ranks(Case.rows2), y |-> Vecs(Case.labels2), k |-> Len(Case.law.src), n |-> Len(Case.rows2), noise |-> 0]
\* the rows a path of recorded questions leads to
Follows(row) == \A i \in 1..Len(Case.via) : OrdLe(Case.via[i].thr, row[Case.via[i].col]) = Case.via[i].up
Selected == SelectSeq([i \in 1..Len(Case.full) |-> i], LAMBDA i : Follows(Case.full[i]))
CaseSound == LET lw == CaseLaw IN
   /\ LawOk(lw, Case.k)
   /\ \A i \in 1..Len(Case.rows2) : \A j \in 1..Len(lw.src) : REq(Case.labels2[i][j], Apply(lw, Case.labels[Case.map[i]])[j])
   /\ Case.full = <<>> \/ Selected = Case.sel
Load == Loading /\ Req("case-is-what-it-claims", CaseSound)
        /\ BeginTwin(TLCEval(First), TLCEval(Second), TLCEval(CaseLaw), Case.map, Case.colmap)
Here == CHOOSE w \in pair : w.path = Ev.p
Fixed == UNCHANGED <<p, q2, law, m, cm>>
Near(x, y, tol) == RLe(RAbs(RSub(x, y)), tol)
\* leaves of corresponding places hold corresponding data
LeafAlike(w, a, b) ==
  LET mine == Members2(w.g) IN
  CASE Case.kind = "row-sorted" ->
         /\ SameBag(a.labels, b.labels)
         /\ Len(b.idx) = Len(q2.rk) /\ Len(b.vals) = Len(q2.rk) /\ Len(a.rows) = Len(a.labels)
         /\ \A j \in 1..Len(b.idx) : Len(b.idx[j]) = Len(b.labels) /\ \A i \in 1..Len(b.idx[j]) : b.vals[j][i] = Case.rows2[b.idx[j][i]][j]
         /\ SameBag(a.rows, [i \in 1..Len(b.idx[1]) |-> Case.rows[b.idx[1][i]]])
    [] Case.kind \in {"row", "sorted"} ->
         /\ SameBag(a.labels, [i \in 1..Len(w.g) |-> Case.labels[w.g[i]]])
         /\ SameBag(b.labels, [i \in 1..Len(mine) |-> Case.labels2[mine[i]]])
    [] Case.kind = "gb" -> LET tol == RMul(Ulp33, FoldLeft(LAMBDA x, r : RMax(x, VMaxAbs(q2.y[r])), ROf(0), mine)) IN
         Len(a.out) = p.k /\ Len(b.out) = q2.k /\ \A j \in 1..q2.k : Near(b.out[j], Apply(law, a.out)[j], tol)
    [] OTHER -> TRUE
\* with another depth limit the very same leaves; without its copies of the columns, which nothing needs
Core(d) == IF "max" \in DOMAIN d THEN <<d.max, d.class>> ELSE IF "out" \in DOMAIN d THEN d.out
           ELSE IF "rows" \in DOMAIN d THEN <<d.rows, d.labels>> ELSE d.labels
\* at the lower of the two limits one tree may go on (Case.cut; -1: same limit)
AtCut == Len(Ev.p) = Case.cut
Strict == Case.cut >= 0
InPair == \E w \in pair : w.path = Ev.p
Aside == \E x \in loose : StartsWith(Ev.p, x) /\ Ev.p # x
\* with another depth limit: the same question, the same leaf, or at the lower limit one goes on
Deeper(w, a, b) ==
  IF AtCut /\ a.leaf /\ ~b.leaf THEN OneStops(w)
  ELSE LET same == /\ a.leaf = b.leaf /\ (a.leaf \/ ~AtCut)
                   /\ IF a.leaf THEN Core(a.data) = Core(b.data) ELSE a.col = b.col /\ SameNum(a.thr, b.thr) IN
       /\ Req("a-deeper-limit-only-extends", same)
       /\ IF same /\ ~a.leaf THEN BothDivide(w, a.col, RankOf(Col(Case.rows, a.col), a.thr), b.col, RankOf(Col(Case.rows2, b.col), b.thr))
                              ELSE BothStop(w)
\* of columns that order these rows alike, a subtree asks the one the tree asks
Alike(g, c, d) == \A i, j \in 1..Len(g) : (p.rk[c][g[i]] < p.rk[c][g[j]]) = (p.rk[d][g[i]] < p.rk[d][g[j]])
SameOfLike(g, c, d) == Case.full = <<>> \/ c = d \/ ~Alike(g, c, d)
Pair == /\ IsEvent("pair") /\ Fixed
        /\ Req("both-trees-have-a-node-here", Aside \/ (InPair /\ Ev.ina /\ Ev.inb))
        /\ IF Aside THEN UNCHANGED <<pair, loose, swapped>>
           ELSE LET a == Ev.a b == Ev.b IN
             CASE Strict -> Deeper(Here, a, b)
               [] a.leaf /\ b.leaf -> Req("corresponding-leaves-hold-the-same-data", LeafAlike(Here, a.data, b.data)) /\ BothStop(Here)
               [] ~a.leaf /\ ~b.leaf ->
                    LET t1 == RankOf(Col(Case.rows, a.col), a.thr) t2 == RankOf(Col(Case.rows2, b.col), b.thr) IN
                    Req("same-question-or-one-of-equal-merit", MayPair(Here, a.col, t1, b.col, t2)) /\ Req("the-same-of-like-columns", SameOfLike(Here.g, a.col, b.col))
                    /\ BothDivide(Here, a.col, t1, b.col, t2)
               [] ~a.leaf /\ b.leaf ->
                    Req("one-divides-only-if-nothing-is-gained", NotMore(Gain(p, Here.g, a.col, RankOf(Col(Case.rows, a.col), a.thr)), Here.g)) /\ OneStops(Here)
               [] OTHER ->
                    Req("one-divides-only-if-nothing-is-gained", NotMore(Gain2(Here.g, b.col, RankOf(Col(Case.rows2, b.col), b.thr)), Here.g)) /\ OneStops(Here)
\* errors on corresponding test sets (onrows: the training rows themselves), in units of the second
SpreadTol == RMul(Ulp33, RDiv(VSum([i \in 1..q2.n |-> VSumSq(q2.y[i])]), q2.n * q2.k))
InUnits(err) == RDiv(RMul(RMul(Factor(law), p.k), err), q2.k)
Err == /\ IsEvent("err")
       /\ Req("all-nodes-compared", pair = {})
       /\ Req("same-error", loose # {} \/ (swapped /\ ~Ev.onrows) \/
                (IsFin(Ev.a) /\ IsFin(Ev.b) /\ Near(InUnits(Ev.a), Ev.b, RAdd(SpreadTol, RMul(Ulp33, RAbs(Ev.b))))))
       /\ UNCHANGED tw
\* two regression ensembles, one trained on the multiplied labels
Forecast == /\ IsEvent("forecast")
            /\ Req("predictions-are-multiplied", /\ Len(Ev.a) = p.k /\ Len(Ev.b) = q2.k
                  /\ \A j \in 1..q2.k : IsFin(Ev.a[j]) /\ IsFin(Ev.b[j]) /\ Near(Ev.b[j], Apply(law, VOf(Ev.a))[j],
                        RMul(Ulp33, RMax(RMul(RAbs(law.a), MaxAbs(p, [i \in 1..p.n |-> i])), RAbs(Ev.b[j])))))
            /\ UNCHANGED tw
End == IsEvent("end") /\ Req("all-nodes-compared", pair = {}) /\ UNCHANGED tw
TraceNext == (e = 0 /\ Load) \/ (e > 0 /\ (Pair \/ Err \/ Forecast \/ End))
View == <<l, e>>
=============================================================================
