---------------------------- MODULE HistoryTrace ----------------------------
(* Recorded histories of calls (property C17).                                *)
EXTENDS TraceBase, History
vars == <<l, e, hvars>>
TraceInit == TBInit /\ HistoryInit
Load == Loading /\ UNCHANGED hvars
Trained == /\ IsEvent("train")
           /\ Req("training-is-reproducible-and-more-rounds-only-append", MayTrain(Ev.kind, Ev.rounds, Ev.trees, <<Ev.init, Ev.mlr>>))
           /\ Train(Ev.m, Ev.kind, Ev.rounds, Ev.trees, <<Ev.init, Ev.mlr>>)
Shown == /\ IsEvent("show") /\ Req("model-unchanged", MayShow(Ev.m, Ev.trees, <<Ev.init, Ev.mlr>>)) /\ UNCHANGED hvars
Predicted == /\ IsEvent("predict") /\ Req("same-answer-as-before", MayAnswer(Ev.m, <<Ev.q>>, <<Ev.a>>)) /\ Answers(Ev.m, <<Ev.q>>, <<Ev.a>>)
Batched == /\ IsEvent("batch")
           /\ Req("one-answer-per-row", Len(Ev.qs) = Len(Ev.as))
           /\ Req("answers-do-not-depend-on-the-batch", MayAnswer(Ev.m, Ev.qs, Ev.as) /\ OneAnswerPerRow(Ev.qs, Ev.as))
           /\ Answers(Ev.m, Ev.qs, Ev.as)
\* the score of a list of rows; the key is the list
Scored == /\ IsEvent("score") /\ Req("same-score-as-before", MayAnswer(Ev.m, <<Ev.key>>, <<Ev.a>>)) /\ Answers(Ev.m, <<Ev.key>>, <<Ev.a>>)
End == IsEvent("end") /\ UNCHANGED hvars
TraceNext == (e = 0 /\ Load) \/ (e > 0 /\ (Trained \/ Shown \/ Predicted \/ Batched \/ Scored \/ End))
View == <<l, e>>
=============================================================================
