-------------------------------- MODULE Print --------------------------------
(* Printing a tree (property C19), one line per step, and reading the print-  *)
(* out back. A tree is a function from paths (sequences of "T"/"F") to nodes  *)
(* [leaf |-> TRUE, data |-> d] or [leaf |-> FALSE, name |-> n, thr |-> t].    *)
(* A line is [k |-> "ask", ind, name, thr], [k |-> "T" or "F", ind] or        *)
(* [k |-> "leaf", ind, data], ind: how deep it is indented.                   *)
EXTENDS Integers, Sequences, TLC
\* what remains to be printed, top first: a node, or the marker of a branch
NodeItem(p)  == [what |-> "node", path |-> p]
MarkItem(p, s) == [what |-> s, path |-> p]
PrintStart == <<NodeItem(<<>>)>>
Kind(tr, it) == IF it.what # "node" THEN it.what ELSE IF tr[it.path].leaf THEN "leaf" ELSE "ask"
Push(tr, it) == IF Kind(tr, it) = "ask"
                THEN << MarkItem(it.path, "T"), NodeItem(Append(it.path, "T")), MarkItem(it.path, "F"), NodeItem(Append(it.path, "F")) >>
                ELSE <<>>
After(tr, todo) == Push(tr, Head(todo)) \o Tail(todo)
LineOf(tr, it) == LET d == Len(it.path) n == tr[it.path] IN
   CASE Kind(tr, it) = "ask"  -> [k |-> "ask", ind |-> d, name |-> n.name, thr |-> n.thr]
     [] Kind(tr, it) = "leaf" -> [k |-> "leaf", ind |-> d, data |-> n.data]
     [] OTHER                 -> [k |-> it.what, ind |-> d]
\* ---- reading back: `at` is the branch announced last
MarkAt(at, line) == Append(SubSeq(at, 1, line.ind), line.k)
Fits(at, line) == IF line.k \in {"ask", "leaf"} THEN line.ind = Len(at) ELSE line.ind <= Len(at)
NodeOfLine(line) == IF line.k = "ask" THEN [leaf |-> FALSE, name |-> line.name, thr |-> line.thr] ELSE [leaf |-> TRUE, data |-> line.data]
=============================================================================
