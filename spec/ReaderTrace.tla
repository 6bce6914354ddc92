----------------------------- MODULE ReaderTrace -----------------------------
(* What the real reader made of a file, row by row.                            *)
EXTENDS TraceBase, Reader
vars == <<l, e, rdvars>>
Dummy == [kind |-> "", k |-> 0, a |-> <<>>, b |-> <<>>, wa |-> 0, wb |-> 0, odd |-> FALSE]
TraceInit == TBInit /\ BeginRead(Dummy)
Input == [kind |-> Case.kind, k |-> Case.k, a |-> Case.a, b |-> Case.b, wa |-> Len(Case.header), wb |-> Case.wb, odd |-> Case.odd]
Load == Loading /\ inp' = TLCEval(Input) /\ UNCHANGED <<pos, out, st>>
SameSeq(u, v) == Len(u) = Len(v) /\ \A j \in 1..Len(u) : SameNum(u[j], v[j])
Row == /\ IsEvent("row")
       /\ Req("a-record-for-this-row", pos <= Len(inp.a))
       /\ Req("unreadable-record-refused", Readable(inp, pos))
       /\ LET w == RowOf(inp, pos) IN
          /\ Req("features-as-written", SameSeq(Ev.x, w.x))
          /\ Req("label-as-written", SameSeq(Ev.y, w.y))
       /\ TakeRecord
\* a block of records in one step (large files): the composition of Len(Ev.xs) row steps
Rows == /\ IsEvent("rows")
        /\ Req("a-record-for-this-row", pos + Len(Ev.xs) - 1 <= Len(inp.a) /\ Len(Ev.xs) = Len(Ev.ys))
        /\ \A i \in 1..Len(Ev.xs) :
              LET n == pos + i - 1  w == RowOf(inp, n) IN
              /\ Req("unreadable-record-refused", Readable(inp, n))
              /\ Req("features-as-written", SameSeq(Ev.xs[i], w.x))
              /\ Req("label-as-written", SameSeq(Ev.ys[i], w.y))
        /\ st = "reading" /\ pos' = pos + Len(Ev.xs)
        /\ out' = out \o TLCEval([i \in 1..Len(Ev.xs) |-> RowOf(inp, pos + i - 1)])
        /\ UNCHANGED <<inp, st>>
\* the column-wise copy: Ev.cols, or none for single-target data
Cols == /\ IsEvent("cols")
        /\ Req("every-record-read", pos = Len(inp.a) + 1)
        /\ Req("columns-transpose-rows",
               IF out = <<>> THEN \A j \in 1..Len(Ev.cols) : Ev.cols[j] = <<>>
               ELSE /\ Len(Ev.cols) = Len(out[1].x)
                    /\ \A j \in 1..Len(Ev.cols) : SameSeq(Ev.cols[j], [i \in 1..Len(out) |-> out[i].x[j]]))
        /\ UNCHANGED rdvars
Done == /\ IsEvent("done")
        /\ Req("every-record-read", pos = Len(inp.a) + 1)
        /\ Req("different-record-counts-refused", NothingLeft(inp))
        /\ Req("missing-file-refused", ~Case.missing)
        /\ Finish
Refused == /\ IsEvent("refused")
           /\ Req("well-formed-input-read", Case.missing \/ (Case.kind # "names" /\ (~WellFormed(inp) \/ Arguable(inp))))
           /\ UNCHANGED rdvars
\* names of the columns: the header, in order
Names == /\ IsEvent("names") /\ Req("header-in-order", Ev.names = Case.header) /\ UNCHANGED rdvars
TraceNext == (e = 0 /\ Load) \/ (e > 0 /\ (Row \/ Rows \/ Cols \/ Done \/ Refused \/ Names))
View == <<l, e>>
=============================================================================
