------------------------------- MODULE MCTwin -------------------------------
(* For every small problem and every transformation of it that keeps what a   *)
(* tree may depend on, the trees the sequential recursion builds correspond   *)
(* node by node (properties C22, C25; C08 is the identity transformation).     *)
(* Variants of the builder that must be refuted: "first" the labels of row 1   *)
(* count twice; "cap" labels above 5 are cut; "last" the last column is taken  *)
(* among questions of equal merit.                                             *)
EXTENDS Twin, Json
CONSTANTS NR, NC, NK, Vals, Lbls, MaxLv, Kinds, Variant
VARIABLES how, t1, t2
vars == <<tw, how, t1, t2>>
Perms == {f \in [1..NR -> 1..NR] : \A i, j \in 1..NR : i # j => f[i] # f[j]}
\* a strictly increasing function of a column: its dense ranks are the same
DRank(col) == LET V == RangeOf(col) IN [i \in 1..Len(col) |-> Cardinality({v \in V : v < col[i]})]
Base == { [rk |-> rk, y |-> y, k |-> NK, n |-> NR, noise |-> 0, max |-> mx] :
           rk \in {f \in [1..NC -> [1..NR -> Vals]] : \A c \in 1..NC : DRank(f[c]) = f[c]}, y \in [1..NR -> [1..NK -> Lbls]], mx \in MaxLv }
\* other units, another order, repeated targets, an additional constant target
Laws == LET Z(k) == [j \in 1..k |-> 0] I == [j \in 1..NK |-> j] IN
        {[src |-> I, a |-> a, s |-> [j \in 1..NK |-> x]] : a \in {1, 2, 0 - 3}, x \in {0, 5}}
        \cup {[src |-> [j \in 1..NK |-> NK + 1 - j], a |-> 1, s |-> Z(NK)], [src |-> I \o I, a |-> 1, s |-> Z(2 * NK)], [src |-> <<0>> \o I, a |-> 2, s |-> <<7>> \o Z(NK)]}
Hows == (IF "perm" \in Kinds THEN {[kind |-> "perm", f |-> f] : f \in Perms} ELSE {})
        \cup (IF "dup" \in Kinds THEN {[kind |-> "dup", f |-> <<>>]} ELSE {})
        \cup (IF "copy" \in Kinds THEN {[kind |-> "copy", f |-> <<c>>] : c \in 1..NC} ELSE {})
        \cup (IF "const" \in Kinds THEN {[kind |-> "const", f |-> <<>>]} ELSE {})
        \cup (IF "units" \in Kinds THEN {[kind |-> "units", f |-> lw] : lw \in Laws} ELSE {})
LawOf(h) == IF h.kind = "units" THEN h.f ELSE [src |-> [j \in 1..NK |-> j], a |-> 1, s |-> [j \in 1..NK |-> 0]]
\* integers: states with rationals cannot be written to disk
IntApply(lw, v) == [j \in 1..Len(lw.src) |-> IF lw.src[j] = 0 THEN lw.s[j] ELSE lw.a * v[lw.src[j]] + lw.s[j]]
MapOf(h) == IF h.kind = "perm" THEN h.f ELSE IF h.kind = "dup" THEN [i \in 1..2 * NR |-> ((i - 1) % NR) + 1] ELSE [i \in 1..NR |-> i]
\* the copy stands beside its original: among questions of equal merit the columns keep their order
ColsOf(h) == IF h.kind = "copy" THEN [c \in 1..NC + 1 |-> IF c <= h.f[1] THEN c ELSE c - 1] ELSE IF h.kind = "const" THEN <<0>> \o [c \in 1..NC |-> c] ELSE [c \in 1..NC |-> c]
Other(q, h) == LET mm == MapOf(h) cc == ColsOf(h) IN
   [q EXCEPT !.rk = [c \in 1..Len(cc) |-> [i \in 1..Len(mm) |-> IF cc[c] = 0 THEN 0 ELSE q.rk[cc[c]][mm[i]]]],
             !.y = [i \in 1..Len(mm) |-> IntApply(LawOf(h), q.y[mm[i]])], !.n = Len(mm), !.k = Len(LawOf(h).src)]
Seen(q) == CASE Variant = "first" -> [q EXCEPT !.y = [i \in 1..q.n |-> IF i = 1 THEN [j \in 1..q.k |-> 2 * q.y[i][j]] ELSE q.y[i]]]
             [] Variant = "cap" -> [q EXCEPT !.y = [i \in 1..q.n |-> [j \in 1..q.k |-> IF q.y[i][j] > 5 THEN 5 ELSE q.y[i][j]]]]
             [] OTHER -> q
\* the columns in opposite order, and the columns of the tree renamed back
Turned(q) == [q EXCEPT !.rk = [c \in 1..Len(q.rk) |-> q.rk[Len(q.rk) + 1 - c]]]
Built(q) == IF Variant = "last" THEN LET t == GreedyTree(Turned(q)) IN [x \in DOMAIN t |-> IF t[x].leaf THEN t[x] ELSE [t[x] EXCEPT !.c = Len(q.rk) + 1 - @]]
            ELSE GreedyTree(Seen(q))
Init == \E q \in Base, h \in Hows : LET o == Other(q, h) IN
   /\ p = q /\ how = h /\ q2 = o /\ law = LawOf(h) /\ m = MapOf(h) /\ cm = ColsOf(h) /\ loose = {} /\ swapped = FALSE
   /\ pair = {[path |-> "", g |-> [i \in 1..NR |-> i]]}
   /\ t1 = GreedyTree(q) /\ t2 = Built(o)
Step == \E w \in pair :
   /\ UNCHANGED <<p, q2, law, m, cm, how, t1, t2>>
   /\ LET a == t1[w.path] b == t2[w.path] IN
      IF a.leaf \/ b.leaf THEN BothStop(w) ELSE BothDivide(w, a.c, a.t, b.c, b.t)
Spec == Init /\ [][Step]_vars
\* the sequential recursion never even needs the freedom of equal merit
Correspond == /\ LawOk(law, NK)
              /\ \A w \in pair : /\ w.path \in DOMAIN t1 /\ w.path \in DOMAIN t2
                                /\ t1[w.path].leaf = t2[w.path].leaf
                                /\ (~t1[w.path].leaf => MayPair(w, t1[w.path].c, t1[w.path].t, t2[w.path].c, t2[w.path].t))
NeverLoose == loose = {}
EmitCase == pair = {[path |-> "", g |-> [i \in 1..NR |-> i]]} =>
   PrintT("@@GEN " \o ToJson([rk |-> p.rk, y |-> p.y, max |-> p.max, kind |-> how.kind, f |-> how.f]))
=============================================================================
