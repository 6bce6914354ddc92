------------------------------- MODULE Vector -------------------------------
(* Arithmetic on label vectors (property C21), one element per step.          *)
(* An operation: fn, a and b (operands), s (scalar), m (list of vectors).     *)
EXTENDS Rat
TwoOperand == {"add", "sub", "mul", "div", "msd"}
Elementwise == {"add", "sub", "mul", "div"}
OfList == {"sum", "avg"}
MustRefuse(o) == o.fn \in TwoOperand /\ Len(o.a) # Len(o.b)
Size(o) == IF o.fn \in OfList THEN Len(o.m[1]) ELSE Len(o.a)
Elem(o, i) == CASE o.fn = "add" -> RAdd(o.a[i], o.b[i])
                [] o.fn = "sub" -> RSub(o.a[i], o.b[i])
                [] o.fn = "mul" -> RMul(o.a[i], o.b[i])
                [] o.fn = "div" -> RDiv(o.a[i], o.b[i])
                [] o.fn = "scale" -> RMul(o.s, o.a[i])
                [] o.fn = "sum" -> VSum([j \in 1..Len(o.m) |-> o.m[j][i]])
                [] o.fn = "avg" -> RDiv(VSum([j \in 1..Len(o.m) |-> o.m[j][i]]), Len(o.m))
                [] o.fn = "msd" -> LET d == RSub(o.a[i], o.b[i]) IN RMul(d, d)
VARIABLES op, i, res, how
vvars == <<op, i, res, how>>
BeginOp(o) == op = o /\ i = 1 /\ res = <<>> /\ how = "run"
StepElem == /\ how = "run" /\ ~MustRefuse(op) /\ i <= Size(op)
            /\ res' = Append(res, Elem(op, i)) /\ i' = i + 1 /\ UNCHANGED <<op, how>>
EndOp == /\ how = "run" /\ ~MustRefuse(op) /\ i = Size(op) + 1
         /\ res' = IF op.fn = "msd" THEN <<RDiv(VSum(res), Size(op))>> ELSE res
         /\ how' = "done" /\ UNCHANGED <<op, i>>
RefuseOp == how = "run" /\ MustRefuse(op) /\ how' = "refused" /\ UNCHANGED <<op, i, res>>
=============================================================================
