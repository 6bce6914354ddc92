----------------------------- MODULE PrintTrace -----------------------------
(* The lines the real printer wrote, against the tree it was given. How wide  *)
(* an indentation step is and what surrounds the texts is the printer's own   *)
(* choice; it has to be the same everywhere.                                  *)
EXTENDS TraceBase, Print, SequencesExt
VARIABLES todo, tr, form
vars == <<l, e, todo, tr, form>>
\* form: indentation of nodes (nd) and markers (mk) at the root, and per level (step); -1: not yet seen
TraceInit == TBInit /\ todo = <<>> /\ tr = <<>> /\ form = [nd |-> 0 - 1, mk |-> 0 - 1, step |-> 0 - 1]
Chars(p) == p                                          \* recorded paths are sequences of "T"/"F"
TreeOf(ns) == FoldLeft(LAMBDA f, n : f @@ (Chars(n.p) :> n), <<>>, ns)
Load == Loading /\ todo' = PrintStart /\ tr' = TLCEval(TreeOf(Case.nodes)) /\ UNCHANGED form
Blanks(s) == Indent(s)
Item == Head(todo)
Dep == Len(Item.path)
Isnode == Item.what = "node"
Base == IF Isnode THEN form.nd ELSE form.mk
Learn == [form EXCEPT !.nd = IF Isnode /\ Dep = 0 THEN Blanks(Ev.s) ELSE @,
                      !.mk = IF ~Isnode /\ Dep = 0 /\ @ < 0 THEN Blanks(Ev.s) ELSE @,
                      !.step = IF Isnode /\ Dep = 1 /\ @ < 0 THEN Blanks(Ev.s) - form.nd ELSE @]
Placed(f) == Blanks(Ev.s) = (IF Isnode THEN f.nd ELSE f.mk) + Dep * (IF Dep = 0 THEN 0 ELSE f.step)
HasAll(s, ts) == \A i \in 1..Len(ts) : HasText(s, ts[i])
Line == /\ IsEvent("line")
        /\ Req("no-line-after-the-tree", todo # <<>>)
        /\ Req("starts-with-the-given-spacing", StartsWith(Ev.s, Case.spacing))
        /\ LET f == Learn IN
           /\ Req("one-step-deeper-than-the-parent", f.step # 0 /\ (Dep = 0 \/ f.step > 0) /\ Placed(f))
           /\ form' = f
        /\ CASE Kind(tr, Item) = "ask" ->
                  /\ Req("name-of-the-asked-feature", \E x \in {tr[Item.path].name, tr[Item.path].esc} : HasText(Ev.s, "Is " \o x \o " >= "))
                  /\ Req("threshold-in-full", SameNum(LastNum(Ev.s, " >= "), tr[Item.path].thr))
             [] Kind(tr, Item) = "leaf" ->
                  /\ Req("prediction-line", HasText(Ev.s, "Predict"))
                  /\ Req("data-of-the-leaf", HasAll(Ev.s, tr[Item.path].texts))
             [] OTHER -> Req("marker-of-the-branch", IF Item.what = "T" THEN HasText(Ev.s, "True") /\ ~HasText(Ev.s, "False") ELSE HasText(Ev.s, "False") /\ ~HasText(Ev.s, "True"))
        /\ todo' = After(tr, todo) /\ tr' = tr
End == /\ IsEvent("end") /\ Req("whole-tree-printed", todo = <<>>) /\ Req("last-line-ended", Ev.nl) /\ UNCHANGED <<todo, tr, form>>
TraceNext == (e = 0 /\ Load) \/ (e > 0 /\ (Line \/ End))
View == <<l, e>>
=============================================================================
