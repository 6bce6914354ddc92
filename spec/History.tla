------------------------------ MODULE History ------------------------------
(* Models as a user sees them over a history of calls (property C17): train,  *)
(* predict, predict in batches, score, look at the trees. `known` holds, per  *)
(* kind, the longest list of trees any training has shown; `memo` every       *)
(* answer ever given, by kind, number of rounds and question.                 *)
EXTENDS Naturals, Sequences, TLC
VARIABLES models, known, start, memo
hvars == <<models, known, start, memo>>
NoMap == [x \in {} |-> x]
HistoryInit == models = NoMap /\ known = NoMap /\ start = NoMap /\ memo = NoMap
IsPrefixOf(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
Alike(s, t) == IsPrefixOf(s, t) \/ IsPrefixOf(t, s)
KnownOf(kd) == IF kd \in DOMAIN known THEN known[kd] ELSE <<>>
\* the trees and the start of a training of t rounds are determined by the earlier ones
MayTrain(kd, t, trees, ini) == /\ Len(trees) = t /\ Alike(trees, KnownOf(kd))
                               /\ kd \in DOMAIN start => start[kd] = ini
Train(nm, kd, t, trees, ini) ==
   /\ models' = (nm :> [kind |-> kd, t |-> t]) @@ models
   /\ known' = (kd :> (IF Len(trees) > Len(KnownOf(kd)) THEN trees ELSE KnownOf(kd))) @@ known
   /\ start' = (kd :> ini) @@ start /\ UNCHANGED memo
\* the model still shows what it was trained to
MayShow(nm, trees, ini) == LET mo == models[nm] IN Len(trees) = mo.t /\ IsPrefixOf(trees, KnownOf(mo.kind)) /\ start[mo.kind] = ini
\* an answer given before is given again; qs: the rows asked in one call, as: the answers
Key(nm, q) == <<models[nm].kind, models[nm].t, q>>
MayAnswer(nm, qs, as) == Len(qs) = Len(as) /\ \A i \in 1..Len(qs) : Key(nm, qs[i]) \in DOMAIN memo => memo[Key(nm, qs[i])] = as[i]
Remember(nm, qs, as) == memo' = [k \in {Key(nm, qs[i]) : i \in 1..Len(qs)} |-> as[CHOOSE i \in 1..Len(qs) : Key(nm, qs[i]) = k]] @@ memo
Answers(nm, qs, as) == Remember(nm, qs, as) /\ UNCHANGED <<models, known, start>>
\* several equal rows in one batch get equal answers
OneAnswerPerRow(qs, as) == \A i, j \in 1..Len(qs) : qs[i] = qs[j] => as[i] = as[j]
=============================================================================
