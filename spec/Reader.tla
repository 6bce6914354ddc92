------------------------------- MODULE Reader -------------------------------
(* Reading data files (property C18). A file is a header and a sequence of    *)
(* records; a record is a sequence of fields (texts). The reader takes one    *)
(* record after the other and either turns it into a row or refuses the whole *)
(* input: there is no third way.                                              *)
(*   kind "single": last field is the label         (read_csv_data)           *)
(*        "onehot": last field is a class of K      (..._one_hot_multi_target)*)
(*        "multi" : i-th record of a with i-th of b (..._multi_target)        *)
EXTENDS Rat
\* an input: kind, k, a and b (record sequences), wa, wb (widths of the headers)
Width(rs, w)    == IF rs = <<>> THEN w ELSE Len(rs[1])
\* the record has as many fields as the first one, at least one, and all are numbers
RecGood(rs, i)  == /\ Len(rs[i]) = Len(rs[1]) /\ Len(rs[i]) >= 1
                   /\ \A j \in 1..Len(rs[i]) : IsNum(rs[i][j])
\* the class a label names; 0: none
ClassNo(f, K)   == IF \E c \in 1..K : SameNum(f, ToString(c - 1)) THEN CHOOSE c \in 1..K : SameNum(f, ToString(c - 1)) ELSE 0
OneHotOf(K, c)  == [j \in 1..K |-> IF j = c THEN "1" ELSE "0"]
LabelGood(q, i) == q.kind = "onehot" => ClassNo(q.a[i][Len(q.a[i])], q.k) # 0
Readable(q, i)  == RecGood(q.a, i) /\ LabelGood(q, i) /\ (q.kind = "multi" => i <= Len(q.b) /\ RecGood(q.b, i))
Front(s) == SubSeq(s, 1, Len(s) - 1)
RowOf(q, i) == CASE q.kind = "single" -> [x |-> Front(q.a[i]), y |-> <<q.a[i][Len(q.a[i])]>>]
                 [] q.kind = "onehot" -> [x |-> Front(q.a[i]), y |-> OneHotOf(q.k, ClassNo(q.a[i][Len(q.a[i])], q.k))]
                 [] OTHER             -> [x |-> q.a[i], y |-> q.b[i]]
\* nothing is left over when all records of a are read
NothingLeft(q) == q.kind = "multi" => Len(q.a) = Len(q.b)
WellFormed(q) == (\A i \in 1..Len(q.a) : Readable(q, i)) /\ NothingLeft(q)
\* inputs whose meaning is arguable (a header of another width, no records, padded numbers) may be refused, too
Arguable(q) == \/ q.odd \/ q.a = <<>>
               \/ Width(q.a, q.wa) # q.wa \/ (q.kind = "multi" /\ Width(q.b, q.wb) # q.wb)

VARIABLES inp, pos, out, st
rdvars == <<inp, pos, out, st>>
BeginRead(q) == inp = q /\ pos = 1 /\ out = <<>> /\ st = "reading"
TakeRecord == /\ st = "reading" /\ pos <= Len(inp.a) /\ Readable(inp, pos)
              /\ out' = Append(out, RowOf(inp, pos)) /\ pos' = pos + 1 /\ UNCHANGED <<inp, st>>
Refuse == /\ st = "reading"
          /\ IF pos <= Len(inp.a) THEN ~Readable(inp, pos) ELSE ~NothingLeft(inp)
          /\ st' = "refused" /\ out' = <<>> /\ UNCHANGED <<inp, pos>>
Finish == /\ st = "reading" /\ pos = Len(inp.a) + 1 /\ NothingLeft(inp)
          /\ st' = "done" /\ UNCHANGED <<inp, pos, out>>
\* the properties
Faithful == st = "done" => /\ Len(out) = Len(inp.a)
                           /\ \A i \in 1..Len(out) : out[i] = RowOf(inp, i)
                           /\ (inp.kind = "multi" => Len(inp.b) = Len(out))
RefusedOnlyIfBad == st = "refused" => ~WellFormed(inp)
BadNeverDone == st = "done" => WellFormed(inp)
=============================================================================
