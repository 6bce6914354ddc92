----------------------------- MODULE SplitTrace -----------------------------
(* Recorded answers of the split search (properties C01, C02). The search is  *)
(* the state machine of Sweep at the grain of whole columns: ScanColumn is    *)
(* the composition of one column's StartColumn, Consume ... EndColumn steps.  *)
EXTENDS TraceBase, VarSplit
VARIABLES p, c, best
vars == <<l, e, p, c, best>>
TraceInit == TBInit /\ p = <<>> /\ c = 0 /\ best = ROf(-1)
Col(j) == [i \in 1..Len(Case.rows) |-> Case.rows[i][j]]
G == [i \in 1..p.n |-> i]
Load == /\ Loading
        /\ p' = TLCEval([rk |-> TLCEval([j \in 1..Len(Case.rows[1]) |-> DenseRank(TLCEval(Col(j)))]),
                         y |-> TLCEval([i \in 1..Len(Case.labels) |-> VOf(Case.labels[i])]),
                         k |-> Case.k, n |-> Len(Case.rows), noise |-> 0])
        /\ c' = 0 /\ best' = ROf(-1)
\* very wide data sets: a block of columns per step
Block == 1 + Len(p.rk) \div 32
Upto == IF c + Block > Len(p.rk) THEN Len(p.rk) ELSE c + Block
ScanColumn == /\ e >= 1 /\ e <= NEv(l) /\ c < Len(p.rk) /\ c' = Upto
              /\ best' = FoldLeft(LAMBDA m, j : RMax(m, BestCand(p.rk[j], p.y, G, p.k)), best, [i \in 1..(Upto - c) |-> c + i])
              /\ UNCHANGED <<l, e, p>>
\* all columns scanned: the answer
AnswerOK(ev) ==
  LET sep == ~REq(best, -1)                                    \* some question separates the rows
      top == IF sep THEN RDiv(RSub(best, Parent(p, G)), p.n) ELSE ROf(0)
      tol == Tol(p, G)
      inr == ev.col \in 1..Len(p.rk)
      t   == IF inr THEN RankOf(Col(ev.col), ev.thr) ELSE 0
      got == IF inr THEN Gain(p, G, ev.col, t) ELSE ROf(0)
      occ == inr /\ \E i \in 1..p.n : SameNum(Case.rows[i][ev.col], ev.thr)
  IN /\ For({"C01", "C02"}, "gain-is-a-finite-number", IsFin(ev.gain))
     /\ For({"C01"}, "column-exists", inr)
     /\ For({"C01"}, "no-question-does-better", RLe(RSub(top, got), tol))
     /\ For({"C01"}, "stops-only-when-nothing-to-gain", REq(ev.gain, 0) => RLe(top, tol))
     /\ For({"C02"}, "never-negative", RLe(0, ev.gain))
     /\ For({"C02"}, "zero-when-nothing-to-divide", ~sep \/ AllSame(p, G) => REq(ev.gain, 0))
     /\ For({"C02"}, "positive-when-variance-can-be-reduced", RLt(tol, top) => RLt(0, ev.gain))
     /\ For({"C02"}, "reported-gain-is-achieved", REq(ev.gain, 0) \/ RLe(RAbs(RSub(ev.gain, got)), tol))
     /\ For({"C02"}, "threshold-occurs-and-separates", RLt(0, ev.gain) => occ /\ Separates(p, G, ev.col, t))
Answer == /\ c = Len(p.rk) /\ IsEvent("split") /\ AnswerOK(Ev) /\ UNCHANGED <<p, c, best>>
TraceNext == (e = 0 /\ Load) \/ (e > 0 /\ (ScanColumn \/ Answer))
View == <<l, e, c>>
=============================================================================
