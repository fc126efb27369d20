---- MODULE BusTrace ----
(* Validates recorded runs of the real code against Bus. *)
EXTENDS TraceBase
B == INSTANCE Bus
S0 == B!New
Step(s, l) == CASE l.op = "reset"     -> B!New
               [] l.op = "publish"   -> B!Publish(s, l.out)
               [] l.op = "subscribe" -> B!Subscribe(s, l.s)
               [] l.op = "drop"      -> B!Drop(s, l.s)
               [] l.op = "drain"     -> B!Read(s, l.s, Len(l.got))
               [] OTHER -> s
Fails(s, l) ==
  CASE l.op = "drain" ->
         LET u == B!Unread(s, l.s) IN
         Lab(Len(l.got) <= Len(u) /\ l.got = SubSeq(u, 1, Len(l.got)), "subscriber saw other events than published, or in another order")
         \cup Lab(l.all => Len(l.got) >= Len(u), "subscriber missed events")
    [] l.op = "conc" ->    \* concurrent: events lo+1.. may, events hi+1.. must be seen
         Lab(l.cons, "subscriber saw events out of order or with gaps")
         \cup (IF l.n > 0 THEN Lab(l.first > l.lo, "subscriber saw an event published before it subscribed")
                            \cup Lab(l.first <= l.hi + 1, "subscriber missed an event published after it subscribed") ELSE {})
         \cup Lab(l.all => (IF l.n > 0 THEN l.last = l.total ELSE l.hi = l.total), "subscriber missed the last events")
    [] OTHER -> {}

VARIABLES i, s, bad
vars == <<i, s, bad>>
L == Trace[i]
Init == i = 1 /\ s = S0 /\ bad = {}
Next == /\ i <= Len(Trace) /\ bad = {}
        /\ i' = i + 1
        /\ bad' = Fails(s, L)
        /\ s' = IF bad' = {} THEN Step(s, L) ELSE s
Spec == Init /\ [][Next]_vars
Ok == bad = {} \/ PrintT(<<"FAIL", i - 1, bad>>)
====
