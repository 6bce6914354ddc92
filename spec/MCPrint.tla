------------------------------- MODULE MCPrint -------------------------------
(* Every small tree is printed line by line, then read back.                  *)
EXTENDS Print, Json, FiniteSets
CONSTANTS Names, Thrs, Data, Depth, Variant
VARIABLES tr, todo, lines, ri, at, got
pvars == <<tr, todo, lines, ri, at, got>>
Under(s, t) == [p \in {<<s>> \o q : q \in DOMAIN t} |-> t[Tail(p)]]
RECURSIVE Trees(_)
Trees(d) == {(<<>> :> [leaf |-> TRUE, data |-> x]) : x \in Data} \cup
            IF d = 0 THEN {} ELSE
            {(<<>> :> [leaf |-> FALSE, name |-> n, thr |-> h]) @@ Under("T", a) @@ Under("F", b) : n \in Names, h \in Thrs, a \in Trees(d - 1), b \in Trees(d - 1)}
Init == tr \in Trees(Depth) /\ todo = PrintStart /\ lines = <<>> /\ ri = 1 /\ at = <<>> /\ got = <<>>
\* defects of a printer
Spoil(x) == CASE Variant = "round" /\ x.k = "ask" -> [x EXCEPT !.thr = @ \div 2]
              [] Variant = "flat" -> [x EXCEPT !.ind = IF @ > 1 THEN 1 ELSE @]
              [] Variant = "marks" /\ x.k = "F" /\ x.ind > 0 -> [x EXCEPT !.k = "T"]
              [] OTHER -> x
PrintLine == /\ todo # <<>>
             /\ lines' = Append(lines, Spoil(LineOf(tr, Head(todo)))) /\ todo' = After(tr, todo) /\ UNCHANGED <<tr, ri, at, got>>
ReadLine == /\ todo = <<>> /\ ri <= Len(lines) /\ Fits(at, lines[ri])
            /\ IF lines[ri].k \in {"ask", "leaf"} THEN got' = (at :> NodeOfLine(lines[ri])) @@ got /\ at' = at
               ELSE at' = MarkAt(at, lines[ri]) /\ got' = got
            /\ ri' = ri + 1 /\ UNCHANGED <<tr, todo, lines>>
Next == PrintLine \/ ReadLine
Spec == Init /\ [][Next]_pvars /\ WF_pvars(Next)
\* the print-out holds all of the tree: it can always be read to its end, and gives the tree back
ReadsBack == todo = <<>> => (ri > Len(lines) => got = tr) /\ (ri <= Len(lines) => Fits(at, lines[ri]))
LineCount == todo = <<>> => Len(lines) = 3 * Cardinality({p \in DOMAIN tr : ~tr[p].leaf}) + Cardinality({p \in DOMAIN tr : tr[p].leaf})
Ends == <>(todo = <<>>)
RECURSIVE Shape(_)
Shape(p) == IF tr[p].leaf THEN [leaf |-> TRUE, data |-> tr[p].data]
            ELSE [leaf |-> FALSE, name |-> tr[p].name, thr |-> tr[p].thr, t |-> Shape(Append(p, "T")), f |-> Shape(Append(p, "F"))]
EmitCase == lines = <<>> => PrintT("@@GEN " \o ToJson(Shape(<<>>)))
=============================================================================
