---- MODULE FCacheTrace ----
(* Validates recorded runs of the real code against FCache. *)
EXTENDS TraceBase
F == INSTANCE FCache
S0 == F!New(0)
Step(s, l) == CASE l.op = "reset" -> F!New(l.cap)
               [] l.op = "push"  -> F!Push(s, l.h, l.id, l.n)
               [] l.op = "rollback" -> F!Rollback(s, l.h)
               [] OTHER -> s
\* A filter of no bytes cannot be told from another one of no bytes at the same height.
Same(n, x) == x[1] \in DOMAIN n.held /\ n.held[x[1]][2] = x[3] /\ (x[3] = 0 \/ n.held[x[1]][1] = x[2])
Fails(s, l) == IF l.op = "reset" THEN {} ELSE
  LET n == Step(s, l) hs == SetToSortSeq(DOMAIN n.held, <) IN
  (IF l.op = "push" THEN Lab(l.res = F!Fits(s, l.n), "push result wrong") ELSE {})
  \cup Lab(l.heights = hs, "heights held are wrong")
  \cup Lab(Len(l.held) = Len(hs) /\ \A k \in DOMAIN l.held : l.held[k][1] = hs[k] /\ Same(n, l.held[k]), "contents held are wrong")
  \cup Lab(l.hasgot => (Len(l.got) = Len(hs) /\ \A k \in DOMAIN l.got : Same(n, l.got[k])), "lookup wrong")
  \cup Lab(l.size = F!Bytes(n.held) /\ l.size <= n.cap /\ l.capacity = n.cap, "accounted size wrong")
  \cup Lab(l.len = Len(hs) /\ l.emp = (hs = <<>>), "count wrong")
  \cup Lab(l.start = (IF hs = <<>> THEN -1 ELSE hs[1]) /\ l.end = (IF hs = <<>> THEN -1 ELSE hs[Len(hs)]), "bounds wrong")

VARIABLES i, s, bad
vars == <<i, s, bad>>
L == Trace[i]
Init == i = 1 /\ s = S0 /\ bad = {}
Next == /\ i <= Len(Trace) /\ bad = {}
        /\ i' = i + 1
        /\ bad' = Fails(s, L)
        /\ s' = IF bad' = {} THEN Step(s, L) ELSE s
Spec == Init /\ [][Next]_vars
Ok == bad = {} \/ PrintT(<<"FAIL", i - 1, bad>>)
====
