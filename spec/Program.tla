------------------------------- MODULE Program -------------------------------
(* The bundled program (property C23): it reads the training pair, trains,    *)
(* reads the test pair and prints four figures. What is learned is left open: *)
(* Guess(train) is the learner, Answer(m, x) the model's answer to a row.     *)
(* A data set is a sequence of [x |-> features, y |-> labels].                *)
EXTENDS Rat
SqErr(u, v) == VSumSq(VSub(u, v))
\* the figures of a model's answers as on a test set with labels ls: mean over rows and targets
MeanSqErr(as, ls) == RDiv(VSum([i \in 1..Len(ls) |-> SqErr(VOf(as[i]), VOf(ls[i]))]), Len(ls) * Len(ls[1]))
Order == <<"mse", "rmse", "label", "prediction">>
VARIABLES pc, train, test, model, said
pvars == <<pc, train, test, model, said>>
Boot(tr) == pc = "start" /\ train = tr /\ test = <<>> /\ model = <<>> /\ said = <<>>
Learn(m) == pc = "start" /\ model' = m /\ pc' = "trained" /\ UNCHANGED <<train, test, said>>
ReadTest(te) == pc = "trained" /\ te # <<>> /\ test' = te /\ pc' = "tested" /\ UNCHANGED <<train, model, said>>
\* the figure of kind Order[Len(said) + 1]
Say(v) == /\ pc = "tested" /\ Len(said) < 4 /\ said' = Append(said, v)
          /\ pc' = (IF Len(said) = 3 THEN "end" ELSE pc) /\ UNCHANGED <<train, test, model>>
=============================================================================
