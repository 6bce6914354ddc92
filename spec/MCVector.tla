------------------------------ MODULE MCVector ------------------------------
(* All operations on small vectors; a second, direct definition as oracle.    *)
EXTENDS Vector, Json
CONSTANTS Vals, MaxLen, MaxVecs, Variant
Vals1 == {v - 1 : v \in Vals}
Vecs(k) == [1..k -> Vals1]
NonZero(v) == \A j \in 1..Len(v) : v[j] # 0
AllVecs == UNION {Vecs(k) : k \in 0..MaxLen}
Ops == {[fn |-> f, a |-> a, b |-> b, s |-> 0, m |-> <<>>] : f \in TwoOperand, a \in AllVecs, b \in AllVecs}
       \cup {[fn |-> "scale", a |-> a, b |-> <<>>, s |-> s, m |-> <<>>] : a \in AllVecs, s \in Vals1}
       \cup UNION {{[fn |-> f, a |-> <<>>, b |-> <<>>, s |-> 0, m |-> m] : f \in OfList, m \in [1..n -> Vecs(k)]} : n \in 1..MaxVecs, k \in 0..2}
Sensible(o) == (o.fn = "div" => NonZero(o.b)) /\ (o.fn = "msd" => o.a # <<>>)
Init == \E o \in Ops : Sensible(o) /\ BeginOp(o)
\* defect: stop at the end of the shorter operand
Min(x, y) == IF x < y THEN x ELSE y
ZipStep == /\ Variant = "zip" /\ how = "run" /\ MustRefuse(op) /\ i <= Min(Len(op.a), Len(op.b))
           /\ res' = Append(res, Elem(op, i)) /\ i' = i + 1 /\ UNCHANGED <<op, how>>
ZipEnd == /\ Variant = "zip" /\ how = "run" /\ MustRefuse(op) /\ i = Min(Len(op.a), Len(op.b)) + 1 /\ how' = "done" /\ UNCHANGED <<op, i, res>>
Next == StepElem \/ EndOp \/ RefuseOp \/ ZipStep \/ ZipEnd
Spec == Init /\ [][Next]_vvars /\ WF_vvars(Next)
Sum2(S, f(_)) == LET RECURSIVE G(_) G(k) == IF k = 0 THEN ROf(0) ELSE RAdd(G(k - 1), f(k)) IN G(S)
Complete == how = "done" => CASE op.fn \in TwoOperand -> Len(op.a) = Len(op.b) /\ (op.fn # "msd" => Len(res) = Len(op.a))
                               [] op.fn \in OfList -> Len(res) = Len(op.m[1])
                               [] OTHER -> Len(res) = Len(op.a)
\* laws the results obey
Laws == how = "done" => CASE op.fn = "add" -> VSub(res, VOf(op.b)) = VOf(op.a)
                          [] op.fn = "sub" -> VAdd(res, VOf(op.b)) = VOf(op.a)
                          [] op.fn = "div" -> [j \in 1..Len(res) |-> RMul(res[j], op.b[j])] = VOf(op.a)
                          [] op.fn = "sum" -> \A j \in 1..Len(res) : REq(res[j], Sum2(Len(op.m), LAMBDA r : op.m[r][j]))
                          [] op.fn = "avg" -> \A j \in 1..Len(res) : REq(RMul(res[j], Len(op.m)), Sum2(Len(op.m), LAMBDA r : op.m[r][j]))
                          [] op.fn = "msd" -> RLe(0, res[1]) /\ (REq(res[1], 0) <=> op.a = op.b)
                          [] OTHER -> TRUE
Ends == <>(how # "run")
EmitCase == i = 1 /\ how = "run" => PrintT("@@GEN " \o ToJson([fn |-> op.fn, a |-> op.a, b |-> op.b, s |-> op.s, m |-> op.m]))
=============================================================================
