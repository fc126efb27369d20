---- MODULE FeesTrace ----
(* Validates recorded runs of the real code against Fees. *)
EXTENDS TraceBase
F == INSTANCE Fees
S0 == F!New
Step(s, l) == CASE l.op = "reset" -> F!New
               [] l.op = "process" -> F!Process(s, l.h, l.txs)
               [] l.op = "rollback" -> F!Rollback(s, l.h)
Fails(s, l) == IF l.op # "process" THEN {}
  ELSE Lab(l.res = F!Result(s, l.h, l.txs), "estimate is not the order statistics of the known fee rates")
       \cup Lab(l.res # <<>> => l.res[1] <= l.res[2] /\ l.res[2] <= l.res[3], "estimate not ordered")

VARIABLES i, s, bad
vars == <<i, s, bad>>
L == Trace[i]
Init == i = 1 /\ s = S0 /\ bad = {}
Next == /\ i <= Len(Trace) /\ bad = {}
        /\ i' = i + 1
        /\ bad' = Fails(s, L)
        /\ s' = IF bad' = {} THEN Step(s, L) ELSE s
Spec == Init /\ [][Next]_vars
Ok == bad = {} \/ PrintT(<<"FAIL", i - 1, bad>>)
====
