------------------------------ MODULE MCReader ------------------------------
(* Every small file (pair). Variant: a reader that goes wrong in one way.     *)
EXTENDS Reader, Json
CONSTANTS Fields, Labels, MaxRecs, Wid, Kinds, KK, Variant
Recs(F, w) == [1..w -> F] \cup (IF w > 1 THEN [1..(w - 1) -> F] ELSE {})
Files(F, G) == UNION {[1..m -> {Append(r, g) : r \in Recs(F, Wid - 1) , g \in G}] : m \in 0..MaxRecs}
Short == {<<"1">>}
Inputs == UNION { IF kd = "multi"
                  THEN {[kind |-> kd, k |-> KK, a |-> a, b |-> b, wa |-> Wid, wb |-> Wid - 1, odd |-> FALSE] :
                          a \in Files({"1"}, Fields), b \in UNION {[1..m -> [1..(Wid - 1) -> Fields]] : m \in 0..MaxRecs}}
                  ELSE {[kind |-> kd, k |-> KK, a |-> a, b |-> <<>>, wa |-> Wid, wb |-> 0, odd |-> FALSE] : a \in Files(Fields, IF kd = "onehot" THEN Labels ELSE Fields)}
                  : kd \in Kinds }
Init == \E q \in Inputs : BeginRead(q)
\* defects: read on past a bad record; stop at the shorter file; file a label under a neighbouring class
Skip == /\ Variant = "skip" /\ st = "reading" /\ pos <= Len(inp.a) /\ ~Readable(inp, pos) /\ pos' = pos + 1 /\ UNCHANGED <<inp, out, st>>
Zip  == /\ Variant = "zip" /\ st = "reading" /\ inp.kind = "multi" /\ pos <= Len(inp.a) /\ pos > Len(inp.b) /\ st' = "done" /\ UNCHANGED <<inp, pos, out>>
Cast == /\ Variant = "cast" /\ st = "reading" /\ inp.kind = "onehot" /\ pos <= Len(inp.a) /\ RecGood(inp.a, pos) /\ ~LabelGood(inp, pos)
        /\ out' = Append(out, [x |-> Front(inp.a[pos]), y |-> OneHotOf(inp.k, 1)]) /\ pos' = pos + 1 /\ UNCHANGED <<inp, st>>
Next == TakeRecord \/ Refuse \/ Finish \/ Skip \/ Zip \/ Cast
Spec == Init /\ [][Next]_rdvars /\ WF_rdvars(Next)
Decided == <>(st \in {"done", "refused"})
EmitCase == pos = 1 /\ st = "reading" => PrintT("@@GEN " \o ToJson(inp))
=============================================================================
