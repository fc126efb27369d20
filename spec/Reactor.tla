------------------------------- MODULE Reactor -------------------------------
(* What the reactor may tell the service and the peers, given what they did    *)
(* (C25), and when it has to wake the service (C16). One linear log: an action *)
(* of a peer or the user comes before anything it causes.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
T == INSTANCE Timers
Threshold == 1000
Lbl(c, p, x) == IF c THEN {} ELSE {<<p, x>>}
NoConn == [st |-> "none", out |-> FALSE, e |-> -1, got |-> 0, drop |-> FALSE]
NoEnd  == [sent |-> 0, got |-> 0, wrote |-> 0, fin |-> FALSE, rst |-> FALSE, eof |-> FALSE, there |-> FALSE, over |-> FALSE]
New == [c |-> <<>>, p |-> <<>>, listening |-> <<>>, last |-> 0, done |-> 0, emitted |-> <<>>, out |-> {}, new |-> <<>>, owed |-> FALSE, t |-> 0]
Conn(s, a)   == IF a \in DOMAIN s.c THEN s.c[a] ELSE NoConn
End(s, a, e) == IF <<a, e>> \in DOMAIN s.p THEN s.p[<<a, e>>] ELSE NoEnd
SetC(s, a, v)    == [s EXCEPT !.c = (a :> v) @@ @]
SetP(s, a, e, v) == [s EXCEPT !.p = (<<a, e>> :> v) @@ @]
Listens(s, a) == a \in DOMAIN s.listening /\ s.listening[a]
RECURSIVE Enter(_, _)
Enter(out, q) == IF q = <<>> THEN out ELSE Enter(T!Register(out, Threshold, 0, Head(q)), Tail(q))

Step(s, l) ==
  CASE l.op = "reset" -> New
    [] l.op = "send" -> [s EXCEPT !.last = l.n]
    [] l.op = "command" -> [s EXCEPT !.done = l.n]
    [] l.op = "emit" -> [s EXCEPT !.emitted = Append(@, l.n)]
    [] l.op = "event" -> [s EXCEPT !.emitted = Tail(@)]
    [] l.op = "askdial" -> [s EXCEPT !.listening = (l.a :> l.ok) @@ @]
    [] l.op = "dial" -> SetC(s, l.a, [Conn(s, l.a) EXCEPT !.st = "dialled", !.out = TRUE])
    [] l.op = "attempted" -> SetC(s, l.a, [Conn(s, l.a) EXCEPT !.st = "trying", !.e = @ + 1])
    [] l.op = "pconnect" -> SetP(s, l.a, 0, [NoEnd EXCEPT !.there = TRUE])
    [] l.op = "connected" -> LET e == Conn(s, l.a).e + (IF l.out THEN 0 ELSE 1) IN
         SetC(SetP(s, l.a, e, [End(s, l.a, e) EXCEPT !.there = TRUE]), l.a, [st |-> "up", out |-> l.out, e |-> e, got |-> 0, drop |-> Conn(s, l.a).drop])
    [] l.op = "recv" -> SetC(s, l.a, [Conn(s, l.a) EXCEPT !.got = @ + l.n])
    [] l.op = "write" -> LET c == Conn(s, l.a) e == IF c.st = "dialled" THEN c.e + 1 ELSE c.e IN SetP(s, l.a, e, [End(s, l.a, e) EXCEPT !.wrote = @ + l.n])
    [] l.op = "drop" -> LET c == Conn(s, l.a) IN IF c.st # "none" THEN SetC(s, l.a, [c EXCEPT !.drop = TRUE]) ELSE s
    [] l.op = "disconnected" -> LET c == Conn(s, l.a) IN
         SetC(IF c.st = "up" \/ (c.st = "trying" /\ Listens(s, l.a)) THEN SetP(s, l.a, c.e, [End(s, l.a, c.e) EXCEPT !.over = TRUE]) ELSE s, l.a, [c EXCEPT !.st = "none", !.drop = FALSE])
    [] l.op = "psend" -> SetP(s, l.a, l.e, [End(s, l.a, l.e) EXCEPT !.sent = @ + l.n])
    [] l.op = "pread" -> SetP(s, l.a, l.e, [End(s, l.a, l.e) EXCEPT !.got = @ + l.n])
    [] l.op = "peof" -> SetP(s, l.a, l.e, [End(s, l.a, l.e) EXCEPT !.eof = TRUE])
    [] l.op = "pfin" -> SetP(s, l.a, l.e, [End(s, l.a, l.e) EXCEPT !.fin = TRUE])
    [] l.op = "prst" -> SetP(s, l.a, l.e, [End(s, l.a, l.e) EXCEPT !.rst = TRUE])
    [] l.op = "timer" -> [s EXCEPT !.new = Append(@, l.t)]
    [] l.op = "tick" -> LET out == Enter(s.out, s.new) IN [s EXCEPT !.out = out, !.new = <<>>, !.t = l.t, !.owed = T!Due(out, l.t) # {}]
    [] l.op = "expired" -> [s EXCEPT !.out = T!Wake(@, s.t), !.owed = FALSE]
    [] OTHER -> s

Fails(s, l) ==
  CASE l.op = "command" -> Lbl(l.n = s.done + 1 /\ l.n <= s.last, "C25", "commands lost, repeated or out of order")
    [] l.op = "event" -> Lbl(s.emitted # <<>> /\ Head(s.emitted) = l.n, "C25", "events lost, repeated or out of order")
    [] l.op = "attempted" -> Lbl(Conn(s, l.a).st = "dialled", "C25", "attempt reported that was not made")
    [] l.op = "connected" -> LET c == Conn(s, l.a) IN
         IF l.out THEN Lbl(c.st = "trying", "C25", "connection reported that was not attempted") \cup Lbl(Listens(s, l.a), "C25", "connection reported that was refused")
         ELSE Lbl(c.st = "none" /\ c.e = -1 /\ End(s, l.a, 0).there, "C25", "connection reported that nobody made")
    [] l.op = "recv" -> LET c == Conn(s, l.a) IN
         Lbl(c.st = "up", "C25", "bytes reported outside of a connection") \cup Lbl(l.ok /\ c.got + l.n <= End(s, l.a, c.e).sent, "C25", "bytes received are not those sent")
    [] l.op = "pread" -> Lbl(l.ok /\ End(s, l.a, l.e).got + l.n <= End(s, l.a, l.e).wrote, "C25", "bytes the peer got are not those written")
    [] l.op = "disconnected" -> LET c == Conn(s, l.a) p == End(s, l.a, c.e) IN
         CASE c.st = "up" /\ l.why = "told" -> Lbl(c.drop, "C25", "disconnected without being told to")
           [] c.st = "up" /\ l.why # "told" -> Lbl(p.fin \/ p.rst, "C25", "connection ended that was open") \cup Lbl(p.fin /\ ~p.rst => c.got = p.sent, "C25", "bytes lost at the end of a connection")
           [] c.st \in {"dialled", "trying"} -> Lbl(IF l.why = "told" THEN c.drop ELSE ~Listens(s, l.a) \/ p.rst, "C25", "attempt given up without cause")
           [] OTHER -> Lbl(FALSE, "C25", "end of a connection reported that is not there")
    [] l.op = "tick" -> Lbl(~s.owed, "C16", "a due wake-up did not fire") \cup Lbl(s.emitted = <<>>, "C25", "event not published")
                        \cup Lbl(\A a \in DOMAIN s.c : ~s.c[a].drop, "C25", "connection not closed") \cup Lbl(\A a \in DOMAIN s.c : s.c[a].st # "dialled", "C25", "connection not attempted")
    [] l.op = "expired" -> Lbl(s.owed, "C16", "a wake-up fired early or twice")
    [] l.op = "settled" ->
         Lbl(s.done = s.last, "C25", "commands lost") \cup Lbl(Enter(s.out, s.new) = {}, "C16", "a wake-up got lost")
         \cup Lbl(\A a \in DOMAIN s.c : s.c[a].st \in {"none", "up"}, "C25", "attempt without an end")
         \cup Lbl(\A x \in DOMAIN s.p : LET p == s.p[x] c == Conn(s, x[1]) IN p.there => c.e >= x[2], "C25", "connection not reported")
         \cup Lbl(\A a \in DOMAIN s.c : s.c[a].st = "up" => LET p == End(s, a, s.c[a].e) IN ~p.fin /\ ~p.rst /\ ~p.eof, "C25", "end of a connection not reported")
         \cup Lbl(\A a \in DOMAIN s.c : s.c[a].st = "up" => LET p == End(s, a, s.c[a].e) IN s.c[a].got = p.sent, "C25", "bytes from a peer got lost")
         \cup Lbl(\A a \in DOMAIN s.c : s.c[a].st = "up" => LET p == End(s, a, s.c[a].e) IN p.got = p.wrote, "C25", "bytes to a peer got lost")
         \cup Lbl(\A x \in DOMAIN s.p : s.p[x].over => s.p[x].eof \/ s.p[x].rst, "C25", "connection left open")
    [] l.op = "stopped" -> Lbl(l.res = "ok", "C25", "the reactor failed or did not stop")
    [] OTHER -> {}
=============================================================================
