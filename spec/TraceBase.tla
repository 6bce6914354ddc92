----------------------------- MODULE TraceBase -----------------------------
(* Checking recorded runs of the real code. Every line of the trace file is   *)
(* one case: its inputs and a sequence `events` of what the code did. A case  *)
(* is accepted when the specification's actions explain all its events.       *)
EXTENDS Rat, Json, IOUtils
CONSTANT Props                       \* the properties whose clauses are required in this run
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, e                       \* case, next event (0: inputs not loaded yet)
Case == Cases[l]
NEv(i) == Len(Cases[i].events)
Ev == Case.events[e]
TBInit == l \in 1..Len(Cases) /\ e = 0
Loading == e = 0 /\ e' = 1 /\ l' = l
IsEvent(name) == e \in 1..NEv(l) /\ Ev.ev = name /\ e' = e + 1 /\ l' = l
\* a named requirement: reports which one an unexplainable event violates (IF: evaluated as a value, not as an action)
Req(name, b) == IF b THEN TRUE ELSE PrintT("@@FAIL " \o ToString(l) \o " " \o ToString(e) \o " " \o name) /\ FALSE
For(props, name, b) == IF props \cap Props # {} THEN Req(name, b) ELSE TRUE
ASSUME \A i \in 1..Len(Cases) : TLCSet(i, 0)
Progress == IF e > TLCGet(l) THEN TLCSet(l, e) ELSE TRUE
\* every case was explained to its end
Accepted == /\ PrintT("@@CASES " \o ToString(Len(Cases)))
            /\ \A i \in 1..Len(Cases) : TLCGet(i) = NEv(i) + 1 \/ PrintT("@@STUCK " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
