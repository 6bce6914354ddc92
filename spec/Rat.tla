-------------------------------- MODULE Rat --------------------------------
(* Exact rational arithmetic, IEEE-754 double texts, vectors, ranks.         *)
(*                                                                           *)
(* The definitions below are the meaning: a rational is a pair <<n, d>> in   *)
(* lowest terms with d > 0; an integer i stands for <<i, 1>>.  TLC evaluates *)
(* these operators with java/RatOverrides.java (unbounded integers);         *)
(* RatLaws.tla compares the two on a grid.  F64, OrdLe, IsFin and RExp have  *)
(* no finite TLA+ definition and are given by their meaning in the comment.  *)
EXTENDS Integers, Sequences, TLC, FiniteSets

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(i) == IF i < 0 THEN -i ELSE i
Norm(n, d) == LET s == IF d < 0 THEN -1 ELSE 1
                  g == Gcd(Abs(n), Abs(d))
              IN  << (s * n) \div g, (s * d) \div g >>

F64(s)     == CHOOSE x : TRUE   \* the rational denoted by the double whose shortest text is s
IsFin(s)   == TRUE              \* s is the text of a finite double (not "NaN", "inf", "-inf")
ROf(a)     == IF a \in Int THEN <<a, 1>> ELSE a      \* texts of doubles: F64(a)
RAdd(a, b) == LET x == ROf(a) y == ROf(b) IN Norm(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
RSub(a, b) == LET x == ROf(a) y == ROf(b) IN Norm(x[1] * y[2] - y[1] * x[2], x[2] * y[2])
RMul(a, b) == LET x == ROf(a) y == ROf(b) IN Norm(x[1] * y[1], x[2] * y[2])
RDiv(a, b) == LET x == ROf(a) y == ROf(b) IN Norm(x[1] * y[2], x[2] * y[1])
RLt(a, b)  == LET x == ROf(a) y == ROf(b) IN x[1] * y[2] < y[1] * x[2]
RLe(a, b)  == LET x == ROf(a) y == ROf(b) IN x[1] * y[2] <= y[1] * x[2]
REq(a, b)  == ROf(a) = ROf(b)
RAbs(a)    == LET x == ROf(a) IN << Abs(x[1]), x[2] >>
RMax(a, b) == IF RLe(b, a) THEN ROf(a) ELSE ROf(b)
RIsInt(a)  == ROf(a)[2] = 1
RApprox(a) == ROf(a)            \* a dyadic rational within 2^-158 * |a| of a
RExp(a)    == CHOOSE x : TRUE   \* e^a, within 2^-150 * e^a (below -800: e^-800, less than any double)
RStr(a)    == ToString(ROf(a))
RDouble(a) == ToString(ROf(a))  \* text of the nearest double (for messages only)

VOf(v)       == [i \in 1..Len(v) |-> ROf(v[i])]
VZero(k)     == [i \in 1..k |-> ROf(0)]
VAdd(u, v)   == [i \in 1..Len(u) |-> RAdd(u[i], v[i])]
VSub(u, v)   == [i \in 1..Len(u) |-> RSub(u[i], v[i])]
VScale(c, v) == [i \in 1..Len(v) |-> RMul(c, v[i])]
RECURSIVE VSum(_)
VSum(v)      == IF v = <<>> THEN ROf(0) ELSE RAdd(Head(v), VSum(Tail(v)))
VSumSq(v)    == VSum([i \in 1..Len(v) |-> RMul(v[i], v[i])])
RECURSIVE VMax(_)
VMax(v)      == IF Len(v) = 1 THEN ROf(v[1]) ELSE RMax(Head(v), VMax(Tail(v)))
VMaxAbs(v)   == IF v = <<>> THEN ROf(0) ELSE VMax([i \in 1..Len(v) |-> RAbs(v[i])])
RECURSIVE VSumRows(_, _, _)      \* sum of the vectors y[r] (length k) for r in the sequence rows
VSumRows(y, rows, k) == IF rows = <<>> THEN VZero(k) ELSE VAdd(VOf(y[Head(rows)]), VSumRows(y, Tail(rows), k))

OrdLe(s, t)  == CHOOSE b : TRUE \* the double with text s is <= the double with text t (infinities included)
OrdLt(s, t)  == OrdLe(s, t) /\ ~OrdLe(t, s)
\* number of distinct values in the column strictly below the value t: for every row r of the
\* column and every t,  col[r] >= t  iff  RankOf(col, col[r]) >= RankOf(col, t)
RankOf(col, t) == Cardinality({j \in 1..Len(col) : /\ OrdLt(col[j], t)
                                                   /\ ~\E i \in 1..(j-1) : OrdLe(col[i], col[j]) /\ OrdLe(col[j], col[i])})
DenseRank(col) == [i \in 1..Len(col) |-> RankOf(col, col[i])]
\* the sequence of row numbers `rows` (ascending) sorted by key, ties in row order
SortBy(key, rows) == SortSeq(rows, LAMBDA a, b : key[a] < key[b] \/ (key[a] = key[b] /\ a < b))
\* the same elements the same number of times
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A i \in 1..Len(s) : Cardinality({j \in 1..Len(s) : s[j] = s[i]}) = Cardinality({j \in 1..Len(t) : t[j] = s[i]})

IsNum(s)         == TRUE             \* s is the text of a number, an infinity or NaN (Rust's f64::from_str)
SameNum(s, t)    == CHOOSE b : TRUE  \* both are numbers and denote the same double (NaN = NaN)
HasText(s, t)   == CHOOSE b : TRUE  \* t occurs in the text s
StartsWith(s, t) == CHOOSE b : TRUE  \* the text s begins with t
Indent(s)        == CHOOSE i \in Nat : TRUE  \* number of blanks the text s begins with
LastNum(s, m)    == CHOOSE x : TRUE  \* what follows the last m in s, without blanks and quotation marks
=============================================================================
