---- MODULE ReactorTrace ----
(* Validates recorded runs of the real reactor, on real sockets, against Reactor. *)
EXTENDS TraceBase
R == INSTANCE Reactor
VARIABLES i, s, bad
vars == <<i, s, bad>>
L == Trace[i]
Mine(F) == IF Prop \in {"C25", "ALL"} THEN {x[2] : x \in F} ELSE {x[2] : x \in {y \in F : y[1] = Prop}}
Init == i = 1 /\ s = R!New /\ bad = {}
Next == /\ i <= Len(Trace) /\ bad = {}
        /\ i' = i + 1
        /\ bad' = Mine(R!Fails(s, L))
        /\ s' = IF bad' = {} THEN R!Step(s, L) ELSE s
Spec == Init /\ [][Next]_vars
Ok == bad = {} \/ PrintT(<<"FAIL", i - 1, bad>>)
====
