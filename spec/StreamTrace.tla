---- MODULE StreamTrace ----
(* Validates recorded runs of the real code against Stream. *)
EXTENDS TraceBase
S == INSTANCE Stream
S0 == S!New(<<1>>, <<TRUE>>)
After(s, l) == IF l.eager THEN S!Drain(S!Feed(s, l.n)) ELSE S!Feed(s, l.n)
Step(s, l) == IF l.op = "reset" THEN S!New(l.lens, [k \in DOMAIN l.kinds |-> l.kinds[k] = "ok"]) ELSE After(s, l)
Fails(s, l) == IF l.op = "reset" THEN {} ELSE
  LET a == After(s, l) IN
  Lab(\A k \in DOMAIN l.out : l.out[k] # -2, "decoder panicked")
  \cup Lab(Len(l.out) >= a.got - s.got, "a complete message was not decoded")
  \cup Lab(Len(l.out) <= a.got - s.got /\ \A k \in DOMAIN l.out : l.out[k] = s.got + k, "decoded something that was not sent next")
  \cup (IF l.eager THEN Lab(S!MustErr(a) => l.err, "malformed message not reported") \cup Lab(l.err => S!MayErr(a), "error on valid input") ELSE {})

VARIABLES i, s, bad
vars == <<i, s, bad>>
L == Trace[i]
Init == i = 1 /\ s = S0 /\ bad = {}
Next == /\ i <= Len(Trace) /\ bad = {}
        /\ i' = i + 1
        /\ bad' = Fails(s, L)
        /\ s' = IF bad' = {} THEN Step(s, L) ELSE s
Spec == Init /\ [][Next]_vars
Ok == bad = {} \/ PrintT(<<"FAIL", i - 1, bad>>)
====
