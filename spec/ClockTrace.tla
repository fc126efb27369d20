---- MODULE ClockTrace ----
(* Validates recorded runs of the real code against Clock. *)
EXTENDS TraceBase
C == INSTANCE Clock WITH MinSamples <- 5, MaxSources <- 200, MaxAdjust <- 4200
S0 == [c |-> C!New, t |-> 0]
Step(s, l) == CASE l.op = "reset"  -> [c |-> C!New, t |-> l.t]
               [] l.op = "record" -> [s EXCEPT !.c = C!Record(s.c, l.src, l.s)]
               [] l.op = "set"    -> [s EXCEPT !.t = l.t]
               [] OTHER -> s
Fails(s, l) == LET n == Step(s, l) IN
  Lab(l.off = n.c.off, "offset is not the bounded median of the distinct peers' samples")
  \cup Lab(l.get = C!Adjusted(n.c, n.t), "adjusted time is not local time plus the offset")
  \cup (IF l.op = "from" THEN Lab(l.res = C!Adjusted(n.c, l.q), "adjustment of a given time wrong") ELSE {})

VARIABLES i, s, bad
vars == <<i, s, bad>>
L == Trace[i]
Init == i = 1 /\ s = S0 /\ bad = {}
Next == /\ i <= Len(Trace) /\ bad = {}
        /\ i' = i + 1
        /\ bad' = Fails(s, L)
        /\ s' = IF bad' = {} THEN Step(s, L) ELSE s
Spec == Init /\ [][Next]_vars
Ok == bad = {} \/ PrintT(<<"FAIL", i - 1, bad>>)
====
