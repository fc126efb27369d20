---- MODULE TimersTrace ----
(* Validates recorded runs of the real code against Timers. *)
EXTENDS TraceBase
T == INSTANCE Timers
S0 == [th |-> 0, out |-> {}]
Step(s, l) == CASE l.op = "reset"    -> [th |-> l.th, out |-> {}]
               [] l.op = "register" -> [s EXCEPT !.out = T!Register(s.out, s.th, l.k, l.t)]
               [] l.op = "wake"     -> [s EXCEPT !.out = T!Wake(s.out, l.now)]
               [] OTHER -> s
TimeOf(s, k) == (CHOOSE x \in s.out : x[1] = k)[2]
WakeFails(s, l) ==
  LET due == T!Due(s.out, l.now) keys == {x[1] : x \in due} IN
  IF Rng(l.woken) # keys \/ Len(l.woken) # Cardinality(keys)
  THEN Lab(\A x \in due : x[1] \in Rng(l.woken), "a due wake-up did not fire")
       \cup Lab(Rng(l.woken) \subseteq keys /\ Len(l.woken) <= Cardinality(keys), "a wake-up fired early, twice or unasked")
  ELSE Lab(\A k \in 1..(Len(l.woken) - 1) : TimeOf(s, l.woken[k]) <= TimeOf(s, l.woken[k + 1]), "fired out of order")
       \cup Lab(l.n = Cardinality(keys), "wrong number of fired wake-ups") \cup Lab(l.kept, "earlier results disturbed")
Fails(s, l) == LET n == Step(s, l) IN
  (CASE l.op = "reset" -> {}
     [] l.op = "register" -> Lab(l.res = T!Accepts(s.out, s.th, l.t), "request wrongly refused or accepted")
     [] l.op = "wake" -> WakeFails(s, l)
     [] l.op = "next" -> Lab(l.res = T!Wait(s.out, l.now), "reported next wake-up wrong"))
  \cup (IF l.op = "reset" THEN {} ELSE Lab(l.len = Cardinality(n.out) /\ l.emp = (n.out = {}), "outstanding count wrong"))

VARIABLES i, s, bad
vars == <<i, s, bad>>
L == Trace[i]
Init == i = 1 /\ s = S0 /\ bad = {}
Next == /\ i <= Len(Trace) /\ bad = {}
        /\ i' = i + 1
        /\ bad' = Fails(s, L)
        /\ s' = IF bad' = {} THEN Step(s, L) ELSE s
Spec == Init /\ [][Next]_vars
Ok == bad = {} \/ PrintT(<<"FAIL", i - 1, bad>>)
====
