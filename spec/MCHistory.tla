----------------------------- MODULE MCHistory -----------------------------
(* Every short history of calls on two models over an implementation that may *)
(* answer anything the specification permits (property C17). The histories    *)
(* are replayed on the real code. Variants that must be refuted: "warm" a new  *)
(* training may start from anything; "drift" answers may change over time.     *)
EXTENDS History, Json
CONSTANTS Names, MaxRounds, Rows, MaxCalls, Variant
VARIABLE hist
Values == {0, 1}
Init == HistoryInit /\ hist = <<>>
\* tokens for trees: tree i of any training is the token i or, before anything is known, another one
TreesFor(t) == [1..t -> Values]
Log(c) == hist' = Append(hist, c)
DoTrain == \E nm \in Names, t \in 0..MaxRounds : \E trees \in TreesFor(t) :
   (Variant = "warm" \/ MayTrain("k", t, trees, 0)) /\ Train(nm, "k", t, trees, 0) /\ Log([call |-> "train", m |-> nm, rounds |-> t])
DoPredict == \E nm \in DOMAIN models, q \in Rows, a \in Values : (Variant = "drift" \/ MayAnswer(nm, <<q>>, <<a>>)) /\ Answers(nm, <<q>>, <<a>>) /\ Log([call |-> "predict", m |-> nm, q |-> q])
DoBatch == \E nm \in DOMAIN models, q1, q2 \in Rows : \E as \in [1..2 -> Values] :
   /\ MayAnswer(nm, <<q1, q2>>, as) /\ OneAnswerPerRow(<<q1, q2>>, as) /\ Answers(nm, <<q1, q2>>, as) /\ Log([call |-> "batch", m |-> nm, qs |-> <<q1, q2>>])
DoScore == \E nm \in DOMAIN models, a \in Values : LET k == 99 IN
   MayAnswer(nm, <<k>>, <<a>>) /\ Answers(nm, <<k>>, <<a>>) /\ Log([call |-> "score", m |-> nm, qs |-> <<1, 2>>])
DoShow == \E nm \in DOMAIN models : Log([call |-> "show", m |-> nm]) /\ UNCHANGED hvars
Next == Len(hist) < MaxCalls /\ (DoTrain \/ DoPredict \/ DoBatch \/ DoScore \/ DoShow)
Spec == Init /\ [][Next]_<<hvars, hist>>
\* every model's trees are a prefix of what is known; longer training only appends
AllPrefixes == \A nm \in DOMAIN models : models[nm].t <= Len(known[models[nm].kind])
KnownOnlyGrows == [][\A k \in DOMAIN known : k \in DOMAIN known' /\ IsPrefixOf(known[k], known'[k])]_<<hvars, hist>>
MemoOnlyGrows == [][\A k \in DOMAIN memo : k \in DOMAIN memo' /\ memo[k] = memo'[k]]_<<hvars, hist>>
\* histories over models that make the same calls: emitted once (view: without the values)
View == <<hist, models>>
EmitHist == Len(hist) = MaxCalls => PrintT("@@GEN " \o ToJson([hist |-> hist]))
=============================================================================
