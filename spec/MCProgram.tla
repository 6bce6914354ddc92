------------------------------ MODULE MCProgram ------------------------------
(* The program with a stand-in learner (the mean label) on every small file   *)
(* pair; the figures are recomputed from the files by ReportRight.            *)
EXTENDS Program, Json, FiniteSets
CONSTANTS Vals, MaxRows, Variant
VARIABLES files
vars == <<pvars, files>>
Sets == UNION {[1..n -> [x : Vals, y : [1..1 -> Vals]]] : n \in 1..MaxRows}
Init == \E tr \in Sets, te \in Sets : files = [train |-> tr, test |-> te] /\ Boot(tr)
Mean(d) == RDiv(VSum([i \in 1..Len(d) |-> ROf(d[i].y[1])]), Len(d))
Ys(d) == [i \in 1..Len(d) |-> d[i].y]
Answers(m, d) == [i \in 1..Len(d) |-> m]
\* defects: learn from the test pair; score on the training pair; report another row
Source == IF Variant = "peek" THEN files.test ELSE train
ScoredOn == IF Variant = "self" THEN train ELSE test
Shown == IF Variant = "last" THEN Len(test) ELSE 1
LearnStep == Learn(<<Mean(Source)>>) /\ UNCHANGED files
TestStep == ReadTest(files.test) /\ UNCHANGED files
Figure == CASE Order[Len(said) + 1] = "label" -> VOf(test[Shown].y)
            [] Order[Len(said) + 1] = "prediction" -> model
            [] OTHER -> <<MeanSqErr(Answers(model, ScoredOn), Ys(ScoredOn))>>      \* rmse: given by its square
SayStep == pc = "tested" /\ Say(Figure) /\ UNCHANGED files
Next == LearnStep \/ TestStep \/ SayStep
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
M == <<Mean(files.train)>>
ReportRight == pc = "end" => said = << <<MeanSqErr(Answers(M, files.test), Ys(files.test))>>, <<MeanSqErr(Answers(M, files.test), Ys(files.test))>>, VOf(files.test[1].y), M >>
\* nothing of the test pair is known while training
Blind == pc \in {"start", "trained"} => test = <<>>
Ends == <>(pc = "end")
EmitCase == pc = "start" => PrintT("@@GEN " \o ToJson(files))
=============================================================================
