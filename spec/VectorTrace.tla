----------------------------- MODULE VectorTrace -----------------------------
(* Results of the real vector operations, element by element, within the      *)
(* rounding of doubles.                                                        *)
EXTENDS TraceBase, Vector, SequencesExt
vars == <<l, e, vvars>>
Nothing == [fn |-> "scale", a |-> <<>>, b |-> <<>>, s |-> "0.0", m |-> <<>>]
TraceInit == TBInit /\ BeginOp(Nothing)
Input == [fn |-> Case.fn, a |-> Case.a, b |-> Case.b, s |-> Case.s, m |-> Case.m]
Load == Loading /\ op' = TLCEval(Input) /\ UNCHANGED <<i, res, how>>
Eps == RDiv(1, RMul(RMul(65536, 65536), 1048576))                  \* 2^-52
TinyR == F64("5e-324")
Huge == F64("1.7976931348623157e308")
Mag == CASE op.fn \in OfList -> VSum([j \in 1..Len(op.m) |-> RAbs(op.m[j][i])])
         [] OTHER -> RAbs(Elem(op, i))
Steps == IF op.fn \in OfList THEN Len(op.m) + 1 ELSE 2
Close(v, x, mag, n) == IF IsFin(v) THEN RLe(RAbs(RSub(v, x)), RAdd(RMul(RMul(n, Eps), mag), RMul(2, TinyR)))
                       ELSE RLt(Huge, RMul(RAbs(mag), RAdd(1, RMul(n, Eps))))     \* only an overflow is infinite
\* ---- elements that are not numbers, by the rules of IEEE 754
Special(x) == ~IsFin(x)
Minus(x) == x # "NaN" /\ StartsWith(x, "-")
Zero(x) == ~Special(x) /\ REq(x, 0)
Inf(minus) == IF minus THEN "-inf" ELSE "inf"
Flip(x) == IF x = "inf" THEN "-inf" ELSE IF x = "-inf" THEN "inf" ELSE x
AddS(x, y) == CASE x = "NaN" \/ y = "NaN" -> "NaN"
                [] Special(x) /\ Special(y) -> IF x = y THEN x ELSE "NaN"
                [] Special(x) -> x
                [] Special(y) -> y
                [] OTHER -> "0.0"           \* some finite number
MulS(x, y) == IF x = "NaN" \/ y = "NaN" \/ Zero(x) \/ Zero(y) THEN "NaN" ELSE Inf(Minus(x) # Minus(y))
DivS(x, y) == CASE x = "NaN" \/ y = "NaN" \/ (Special(x) /\ Special(y)) \/ (Zero(x) /\ Zero(y)) -> "NaN"
                [] Special(y) -> "zero"
                [] OTHER -> Inf(Minus(x) # Minus(y))
FoldS(s) == FoldLeft(AddS, "0.0", s)
SpecialElem == CASE op.fn = "add" -> AddS(op.a[i], op.b[i])
                 [] op.fn = "sub" -> AddS(op.a[i], Flip(op.b[i]))
                 [] op.fn = "mul" -> MulS(op.a[i], op.b[i])
                 [] op.fn = "div" -> DivS(op.a[i], op.b[i])
                 [] op.fn = "scale" -> MulS(op.s, op.a[i])
                 [] OTHER -> FoldS([j \in 1..Len(op.m) |-> op.m[j][i]])
IsSpecial == CASE op.fn \in {"add", "sub", "mul"} -> Special(op.a[i]) \/ Special(op.b[i])
               [] op.fn = "div" -> Special(op.a[i]) \/ Special(op.b[i]) \/ Zero(op.b[i])
               [] op.fn = "scale" -> Special(op.s) \/ Special(op.a[i])
               [] OTHER -> \E j \in 1..Len(op.m) : Special(op.m[j][i])
SpecialRight(v, x) == IF x = "zero" THEN Zero(v) ELSE v = x
Elem1 == /\ IsEvent("elem")
         /\ Req("unequal-lengths-refused", ~MustRefuse(op))
         /\ Req("an-element-for-this-result", op.fn # "msd" /\ i <= Size(op))
         /\ Req("element-wise-result", IF IsSpecial THEN SpecialRight(Ev.v, SpecialElem) ELSE Close(Ev.v, Elem(op, i), Mag, Steps))
         /\ i' = i + 1 /\ UNCHANGED <<op, res, how>>
Done == /\ IsEvent("done") /\ Req("unequal-lengths-refused", ~MustRefuse(op))
        /\ Req("every-element-present", i = Size(op) + 1)
        /\ how' = "done" /\ UNCHANGED <<op, i, res>>
\* the mean squared difference is one number
MsdOf(o) == RDiv(VSumSq(VSub(VOf(o.a), VOf(o.b))), Len(o.a))
Msd == /\ IsEvent("msd") /\ Req("unequal-lengths-refused", ~MustRefuse(op))
       /\ Req("mean-of-the-squared-differences", Len(op.a) = 0 \/
             IF \E j \in 1..Len(op.a) : Special(op.a[j]) \/ Special(op.b[j])
             THEN Ev.v = IF \E j \in 1..Len(op.a) : AddS(op.a[j], Flip(op.b[j])) = "NaN" THEN "NaN" ELSE "inf"
             ELSE Close(Ev.v, MsdOf(op), MsdOf(op), Len(op.a) + 8))
       /\ how' = "done" /\ UNCHANGED <<op, i, res>>
Refused == /\ IsEvent("refused") /\ Req("equal-lengths-computed", MustRefuse(op) \/ (op.fn = "msd" /\ Len(op.a) = 0) \/ op.m = <<<<>>>>)
           /\ UNCHANGED vvars
TraceNext == (e = 0 /\ Load) \/ (e > 0 /\ (Elem1 \/ Done \/ Msd \/ Refused))
View == <<l, e>>
=============================================================================
