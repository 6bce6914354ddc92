------------------------------ MODULE RatLaws ------------------------------
(* Self-test of java/RatOverrides.java against the pair definitions of Rat.  *)
EXTENDS VarSplit
N(n, d) == LET s == IF d < 0 THEN -1 ELSE 1
               g == Gcd(Abs(n), Abs(d)) IN << (s * n) \div g, (s * d) \div g >>
S(p) == IF p[2] = 1 THEN ToString(p[1]) ELSE ToString(p[1]) \o "/" \o ToString(p[2])
Grid == {<<n, d>> \in (-6..6) \X (1..5) : TRUE}
R(p) == RDiv(p[1], p[2])
ASSUME \A p, q \in Grid :
  /\ RStr(RAdd(R(p), R(q))) = S(N(p[1]*q[2] + q[1]*p[2], p[2]*q[2]))
  /\ RStr(RSub(R(p), R(q))) = S(N(p[1]*q[2] - q[1]*p[2], p[2]*q[2]))
  /\ RStr(RMul(R(p), R(q))) = S(N(p[1]*q[1], p[2]*q[2]))
  /\ q[1] # 0 => RStr(RDiv(R(p), R(q))) = S(N(p[1]*q[2], p[2]*q[1]))
  /\ RLt(R(p), R(q)) = (p[1]*q[2] < q[1]*p[2])
  /\ RLe(R(p), R(q)) = (p[1]*q[2] <= q[1]*p[2])
  /\ REq(R(p), R(q)) = (p[1]*q[2] = q[1]*p[2])
  /\ (R(p) = R(q)) = (p[1]*q[2] = q[1]*p[2])
  /\ RStr(RMax(R(p), R(q))) = IF p[1]*q[2] >= q[1]*p[2] THEN S(N(p[1],p[2])) ELSE S(N(q[1],q[2]))
  /\ RStr(RAbs(R(p))) = S(N(Abs(p[1]), p[2]))
  /\ RIsInt(R(p)) = (p[1] % p[2] = 0)
ASSUME \A a, b, c \in -3..3 : LET u == <<a, b, c>> v == <<c, a, 2>> IN
  /\ VAdd(VOf(u), VOf(v)) = VOf(<<a+c, b+a, c+2>>)
  /\ VSub(VOf(u), VOf(v)) = VOf(<<a-c, b-a, c-2>>)
  /\ VScale(b, VOf(u)) = VOf(<<b*a, b*b, b*c>>)
  /\ VSum(u) = ROf(a+b+c) /\ VSumSq(u) = ROf(a*a+b*b+c*c)
  /\ VMax(u) = ROf(CHOOSE m \in {a,b,c} : m >= a /\ m >= b /\ m >= c)
  /\ VMaxAbs(u) = ROf(CHOOSE m \in {Abs(a),Abs(b),Abs(c)} : m >= Abs(a) /\ m >= Abs(b) /\ m >= Abs(c))
  /\ VSumRows(<<u, v>>, <<1, 2, 1>>, 3) = VOf(<<2*a+c, 2*b+a, 2*c+2>>)
  /\ SortBy(<<a, b, c>>, <<1, 2, 3>>) = SortSeq(<<1,2,3>>, LAMBDA i, j : u[i] < u[j] \/ (u[i] = u[j] /\ i < j))
  /\ \A x, y, z \in -1..1 : SameBag(u, <<x, y, z>>) =
        (\A e \in -3..3 : Cardinality({i \in 1..3 : u[i] = e}) = Cardinality({i \in 1..3 : <<x,y,z>>[i] = e}))
ASSUME /\ F64("0.5") = RDiv(1, 2) /\ F64("-3.0") = ROf(-3) /\ F64("1e3") = ROf(1000) /\ F64("-0.0") = ROf(0)
       /\ F64("0.1") # RDiv(1, 10) /\ RLt(RAbs(RSub(F64("0.1"), RDiv(1, 10))), RDiv(1, 100000000))
       /\ IsFin("1.0") /\ ~IsFin("NaN") /\ ~IsFin("inf") /\ ~IsFin("-inf")
LtInt(s, t) == s < t
Cols == {"-inf", "-1.0", "-0.0", "0.0", "0.1", "0.10000000000000002", "5.0", "inf"}
Pos == [s \in Cols |-> CASE s = "-inf" -> 0 [] s = "-1.0" -> 1 [] s = "-0.0" -> 2 [] s = "0.0" -> 2 [] s = "0.1" -> 3
                         [] s = "0.10000000000000002" -> 4 [] s = "5.0" -> 5 [] s = "inf" -> 6]
ASSUME \A s, t \in Cols : OrdLe(s, t) = (Pos[s] <= Pos[t]) /\ OrdLt(s, t) = (Pos[s] < Pos[t])
ASSUME \A a, b, c, t \in Cols : LET col == <<a, b, c>> IN
  /\ RankOf(col, t) = Cardinality({Pos[col[i]] : i \in {j \in 1..3 : Pos[col[j]] < Pos[t]}})
  /\ \A i \in 1..3 : DenseRank(col)[i] = RankOf(col, col[i])
\* e^x: e^0 = 1, e^(x+y) = e^x e^y, and bounds on e
Close(x, y) == RLe(RAbs(RSub(x, y)), RMul(RAbs(y), RDiv(1, RMul(1000000000, RMul(1000000000, 1000000000)))))
ASSUME /\ REq(RExp(0), 1) /\ RLt(F64("2.718281828459045"), RExp(1)) /\ RLt(RExp(1), F64("2.7182818284590455"))
       /\ \A a, b \in {-30, -2, -1, 1, 3, 25} : Close(RExp(a + b), RMul(RExp(a), RExp(b)))
       /\ \A a, b \in {-3, 1, 2, 7} : Close(RExp(RDiv(a, 16)), RMul(RExp(RDiv(a - b, 16)), RExp(RDiv(b, 16))))
       /\ Close(RApprox(RDiv(1, 3)), RDiv(1, 3)) /\ Close(RApprox(RDiv(-1, 7)), RDiv(-1, 7))
ASSUME /\ IsNum("1e3") /\ IsNum("-.5") /\ IsNum("5.") /\ IsNum("NaN") /\ ~IsNum("") /\ ~IsNum("1_0") /\ ~IsNum("0x1") /\ ~IsNum("1 ") /\ ~IsNum("e5")
       /\ SameNum("1e3", "1000.0") /\ ~SameNum("1", "2") /\ HasText("abc", "bc") /\ ~HasText("abc", "ac") /\ StartsWith("abc", "ab") /\ ~StartsWith("abc", "b")
\* the sweeping overrides against the definitions: every ranking of 4 rows, every 0/1/2 label, and two targets
CandsDef(key, y, g, k) ==
   LET sep == Separators(key, g) IN
   [i \in 1..Len(sep) |->
      LET lo == RowsLt(key, sep[i], g)  hi == RowsGe(key, sep[i], g) IN
      <<sep[i], RAdd(SqNorm(VSumRows(y, lo, k), Len(lo)), SqNorm(VSumRows(y, hi, k), Len(hi)))>>]
SameCands(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i][1] = b[i][1] /\ REq(a[i][2], b[i][2])
ASSUME \A k1, k2, k3, k4 \in 0..2 : \A a, b, c, d \in {0, 1, 3} :
   LET key == <<k1, k2, k3, k4>>  y == <<<<a, b>>, <<b, 1>>, <<c, a>>, <<d, c>>>> g == <<1, 2, 3, 4>>
       p == [rk |-> <<key>>, y |-> y, k |-> 2, n |-> 4, noise |-> 0] IN
   /\ SameCands(Cands(key, y, g, 2), CandsDef(key, y, g, 2))
   /\ REq(SumSq(p, g), VSum([i \in 1..4 |-> VSumSq(y[i])]))
   /\ \A t \in 0..3 : REq(Gain(p, g, 1, t), GainDef(p, g, 1, t))
   /\ LET cs == CandsDef(key, y, g, 2) IN
      REq(BestCand(key, y, g, 2), FoldLeft(LAMBDA m, x : IF RLt(m, x[2]) THEN x[2] ELSE m, ROf(-1), cs))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
