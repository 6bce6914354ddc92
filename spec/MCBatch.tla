------------------------------ MODULE MCBatch ------------------------------
(* Scoring a test set with a trained model (property C24): one answer per     *)
(* row, kept in the order of the rows; the mean of the squared errors. Rows   *)
(* may be answered by several workers: whichever finishes first, the answers  *)
(* are put where they belong. Variants: "arrival" keeps the answers in the    *)
(* order they arrive in, "halves" averages the scores of two halves, "skip"   *)
(* leaves out a row that asks the same as the row before.                     *)
EXTENDS Rat, SequencesExt, Json
CONSTANTS Rows, MaxQ, Lbls, Workers, Variant
VARIABLES test, label, todo, got, score
vars == <<test, label, todo, got, score>>
Answer(q) == q * q + 1                         \* any function of the row
Given(s) == {s[i] : i \in 1..Len(s)}
Init == /\ test \in UNION {[1..n -> Rows] : n \in 1..MaxQ} /\ label \in [1..Len(test) -> Lbls]
        /\ todo = [w \in 1..Workers |-> {i \in 1..Len(test) : i % Workers = w - 1}]
        /\ got = <<>> /\ score = <<>>
Give(w) == \E i \in todo[w] : /\ \A j \in todo[w] : i <= j           \* every worker goes through its rows in order
   /\ todo' = [todo EXCEPT ![w] = @ \ {i}] /\ got' = Append(got, [i |-> i, a |-> Answer(test[i])]) /\ UNCHANGED <<test, label, score>>
AllGiven == \A w \in 1..Workers : todo[w] = {}
Batch == IF Variant = "arrival" THEN [i \in 1..Len(got) |-> got[i].a]
         ELSE [i \in 1..Len(test) |-> (CHOOSE g \in Given(got) : g.i = i).a]
Sq(i, bt) == (bt[i] - label[i]) * (bt[i] - label[i])
Sum(is, bt) == FoldLeft(LAMBDA x, i : x + Sq(i, bt), 0, is)
Upto(lo, hi) == [i \in 1..(hi - lo + 1) |-> lo + i - 1]
\* numerator and denominator
ScoreOf(bt) == LET n == Len(bt) h == n \div 2 IN
   CASE Variant = "halves" /\ h > 0 -> <<Sum(Upto(1, h), bt) * (n - h) + Sum(Upto(h + 1, n), bt) * h, 2 * h * (n - h)>>
     [] Variant = "skip" -> <<Sum(SelectSeq(Upto(1, n), LAMBDA i : i = 1 \/ test[i] # test[i - 1]), bt), n>>
     [] OTHER -> <<Sum(Upto(1, n), bt), n>>
Report == AllGiven /\ score = <<>> /\ score' = ScoreOf(Batch) /\ UNCHANGED <<test, label, todo, got>>
Next == Report \/ \E w \in 1..Workers : Give(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
InOrder == AllGiven => Batch = [i \in 1..Len(test) |-> Answer(test[i])]
Right == score # <<>> => score[1] * Len(test) = score[2] * Sum(Upto(1, Len(test)), [i \in 1..Len(test) |-> Answer(test[i])])
ZeroIffExact == score # <<>> => (score[1] = 0 <=> \A i \in 1..Len(test) : label[i] = Answer(test[i]))
Reports == <>(score # <<>>)
EmitCase == got = <<>> => PrintT("@@GEN " \o ToJson([test |-> test, label |-> label]))
=============================================================================
