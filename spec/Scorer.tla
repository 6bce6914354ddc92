------------------------------- MODULE Scorer -------------------------------
(* Answering with one leaf: majority vote for classes, mean label for values, *)
(* and the two scores over a test set (properties C09, C10). One label of the *)
(* leaf, then one row of the test set, is consumed per step. Variants that     *)
(* must be refuted: "late" a tie goes to the last class; "first" the class of  *)
(* the first label wins from a third of the votes; "pairs" every other label.   *)
EXTENDS Rat, SequencesExt
\* ---- definitions used by ScoreTrace
CountOf(ls, c) == Cardinality({i \in 1..Len(ls) : REq(ls[i][c], 1)})
FirstMax(cnt) == CHOOSE c \in 1..Len(cnt) : /\ \A d \in 1..Len(cnt) : cnt[d] <= cnt[c]
                                            /\ \A d \in 1..(c - 1) : cnt[d] < cnt[c]
OneHot(k, c) == [j \in 1..k |-> IF j = c THEN ROf(1) ELSE ROf(0)]
Majority(ls, k) == FirstMax([c \in 1..k |-> CountOf(ls, c)])
MeanLabel(ls, k) == VScale(RDiv(1, Len(ls)), VSumRows(ls, [i \in 1..Len(ls) |-> i], k))
SqErr(a, b) == RDiv(VSumSq(VSub(VOf(a), VOf(b))), Len(b))     \* mean over the targets

\* ---- the process
CONSTANTS K, NL, NQ, Vote          \* classes, labels of the leaf, rows of the test set, variant
VARIABLES leaf, test, i, cnt, sum, j, hits, err
vars == <<leaf, test, i, cnt, sum, j, hits, err>>
Lab(c) == OneHot(K, c)
Init == /\ leaf \in UNION {[1..n -> 1..K] : n \in 1..NL} /\ test \in UNION {[1..n -> 1..K] : n \in 1..NQ}
        /\ i = 0 /\ cnt = [c \in 1..K |-> 0] /\ sum = VZero(K) /\ j = 0 /\ hits = 0 /\ err = ROf(0)
Take == /\ i < Len(leaf) /\ i' = i + 1 /\ cnt' = IF Vote = "pairs" /\ i % 2 = 1 THEN cnt ELSE [cnt EXCEPT ![leaf[i + 1]] = @ + 1]
        /\ sum' = VAdd(sum, Lab(leaf[i + 1])) /\ UNCHANGED <<leaf, test, j, hits, err>>
LastMax(ct) == CHOOSE c \in 1..Len(ct) : (\A d \in 1..Len(ct) : ct[d] <= ct[c]) /\ (\A h \in (c + 1)..Len(ct) : ct[h] < ct[c])
Answer == CASE Vote = "late" -> LastMax(cnt)
            [] Vote = "first" /\ 3 * cnt[leaf[1]] > Len(leaf) -> leaf[1]
            [] OTHER -> FirstMax(cnt)
Mean == VScale(RDiv(1, Len(leaf)), sum)
Ask  == /\ i = Len(leaf) /\ j < Len(test) /\ j' = j + 1
        /\ hits' = hits + (IF test[j + 1] = Answer THEN 1 ELSE 0)
        /\ err' = RAdd(err, SqErr(Mean, Lab(test[j + 1]))) /\ UNCHANGED <<leaf, test, i, cnt, sum>>
Next == Take \/ Ask
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Labels == [x \in 1..Len(leaf) |-> Lab(leaf[x])]
VoteIsMajority == i = Len(leaf) => /\ Answer = Majority(Labels, K) /\ Mean = MeanLabel(Labels, K)
                                   /\ \A c \in 1..K : CountOf(Labels, c) <= CountOf(Labels, Answer)
HitsBounded == hits <= j
\* the mean minimises the error on the leaf's own rows, and splitting them cannot increase it
SelfErr(s) == LET ls == [x \in 1..Len(s) |-> Lab(s[x])] m == MeanLabel(ls, K) IN VSum([x \in 1..Len(s) |-> SqErr(m, ls[x])])
SplitNeverHurts == i = Len(leaf) /\ j = 0 => \A h \in 1..(Len(leaf) - 1) :
   RLe(RAdd(SelfErr(SubSeq(leaf, 1, h)), SelfErr(SubSeq(leaf, h + 1, Len(leaf)))), SelfErr(leaf))
Done == i = Len(leaf) /\ j = Len(test)
Ends == <>Done
EmitCase == Done => PrintT("@@GEN [\"" \o ToString(leaf) \o "\",\"" \o ToString(test) \o "\"]")
=============================================================================
