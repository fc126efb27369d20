------------------------------ MODULE ReactorMC ------------------------------
(* A poll loop over a kernel that queues bytes, against Reactor: peers, user    *)
(* and time act at any moment, also in the middle of a round of the loop.       *)
EXTENDS Reactor
CONSTANTS Budget, Cap, MaxT
VARIABLES s, bad, k, r, q, out, tm, now, pc, ready, left
vars == <<s, bad, k, r, q, out, tm, now, pc, ready, left>>
Refused == 2
Dialled == {1, 2}
Inbound == {3}
Conns == Dialled \cup Inbound
K0 == [st |-> "none", in |-> 0, out |-> 0, fin |-> FALSE, rst |-> FALSE, shut |-> FALSE, new |-> FALSE, e |-> -1]
R0 == [st |-> "none", buf |-> 0]
RECURSIVE Run(_, _, _)
Run(st, b, ls) == IF ls = <<>> THEN <<st, b>> ELSE Run(Step(st, Head(ls)), b \cup Fails(st, Head(ls)), Tail(ls))
Say(ls) == LET x == Run(s, bad, ls) IN s' = x[1] /\ bad' = x[2]
Init == /\ s = Step(New, [op |-> "reset"]) /\ bad = {} /\ k = [c \in Conns |-> K0] /\ r = [c \in Conns |-> R0]
        /\ q = <<>> /\ out = <<>> /\ tm = {} /\ now = 0 /\ pc = "poll" /\ ready = {} /\ left = Budget
\* ---- the world ---------------------------------------------------------------
Env == left > 0 /\ left' = left - 1 /\ UNCHANGED <<r, out, tm, pc, ready>>
PConnect(c) == k[c].st = "none" /\ k[c].e = -1 /\ k' = [k EXCEPT ![c] = [K0 EXCEPT !.st = "est", !.new = TRUE, !.e = 0]]
               /\ Say(<<[op |-> "pconnect", a |-> c]>>) /\ UNCHANGED <<q, now>>
PSend(c) == k[c].st = "est" /\ ~k[c].fin /\ ~k[c].rst /\ ~k[c].shut /\ k[c].in < Cap /\ k' = [k EXCEPT ![c].in = @ + 1]
            /\ Say(<<[op |-> "psend", a |-> c, e |-> k[c].e, n |-> 1]>>) /\ UNCHANGED <<q, now>>
PFin(c) == k[c].st = "est" /\ ~k[c].fin /\ ~k[c].rst /\ ~k[c].shut /\ k' = [k EXCEPT ![c].fin = TRUE]
           /\ Say(<<[op |-> "pfin", a |-> c, e |-> k[c].e]>>) /\ UNCHANGED <<q, now>>
PRst(c) == k[c].st = "est" /\ ~k[c].rst /\ ~k[c].shut /\ k' = [k EXCEPT ![c].rst = TRUE, ![c].out = 0]
           /\ Say(<<[op |-> "prst", a |-> c, e |-> k[c].e]>>) /\ UNCHANGED <<q, now>>
User(c) == q' = Append(q, c) /\ Say((IF c[1] = "dial" THEN <<[op |-> "askdial", a |-> c[2], ok |-> c[2] # Refused]>> ELSE <<>>) \o <<[op |-> "send", n |-> s.last + 1]>>)
           /\ UNCHANGED <<k, now>>
Idle(c) == r[c].st = "none" /\ k[c].st = "none" /\ \A i \in DOMAIN q : q[i] # <<"dial", c>>
World == Env /\ (\/ \E c \in Inbound : PConnect(c)
                 \/ \E c \in Conns : PSend(c) \/ PFin(c) \/ PRst(c)
                 \/ \E c \in Dialled : Idle(c) /\ out = <<>> /\ User(<<"dial", c>>)
                 \/ \E c \in {1, 3} : User(<<"write", c>>) \/ User(<<"drop", c>>)
                 \/ \E d \in {0, 500, 1500} : User(<<"timer", d>>)
                 \/ User(<<"emit", 0>>)
                 \/ now < MaxT /\ now' = now + 750 /\ UNCHANGED <<s, bad, k, q>>)
\* Peers read whenever they like, which costs nothing.
PRead(c) == k[c].st = "est" /\ ~k[c].rst /\ k[c].out > 0 /\ k' = [k EXCEPT ![c].out = @ - 1]
            /\ Say(<<[op |-> "pread", a |-> c, e |-> k[c].e, n |-> 1, ok |-> TRUE]>>) /\ UNCHANGED <<r, q, out, tm, now, pc, ready, left>>
PEof(c) == k[c].st = "est" /\ k[c].shut /\ ~k[c].rst /\ k[c].out = 0 /\ k' = [k EXCEPT ![c] = [K0 EXCEPT !.e = k[c].e]]
            /\ Say(<<[op |-> "peof", a |-> c, e |-> k[c].e]>>) /\ UNCHANGED <<r, q, out, tm, now, pc, ready, left>>
\* ---- the loop ----------------------------------------------------------------
Readable(c) == r[c].st # "none" /\ (k[c].in > 0 \/ k[c].fin \/ k[c].rst \/ k[c].st = "ref")
Writable(c) == r[c].st = "connecting" \/ (r[c].st = "up" /\ r[c].buf > 0 /\ (k[c].out < Cap \/ k[c].rst))
Ready == {<<"peer", c>> : c \in {x \in Conns : Readable(x) \/ Writable(x)}} \cup {<<"new", c>> : c \in {x \in Inbound : k[x].new}} \cup (IF q # <<>> THEN {<<"cmd", 0>>} ELSE {})
DueNow == \E t \in tm : t <= now
Poll == pc = "poll" /\ (Ready # {} \/ DueNow) /\ ready' = Ready /\ pc' = "events" /\ Say(<<[op |-> "tick", t |-> now]>>) /\ UNCHANGED <<k, r, q, out, tm, now, left>>
Gone(c) == [k EXCEPT ![c] = IF k[c].rst THEN [K0 EXCEPT !.e = k[c].e] ELSE [@ EXCEPT !.shut = TRUE]]
\* Writing first, then reading, as the poll result says.
Handle(c) ==
  IF r[c].st = "connecting" /\ (k[c].st = "ref" \/ k[c].rst)
  THEN /\ r' = [r EXCEPT ![c] = R0] /\ k' = [k EXCEPT ![c] = [K0 EXCEPT !.e = k[c].e]] /\ Say(<<[op |-> "disconnected", a |-> c, why |-> "error"]>>) /\ UNCHANGED <<q, out, tm, now, left>>
  ELSE
  LET up == IF r[c].st = "connecting" THEN <<[op |-> "connected", a |-> c, out |-> TRUE]>> ELSE <<>>
      broken == k[c].rst /\ r[c].buf > 0
      n == IF Cap - k[c].out < r[c].buf THEN Cap - k[c].out ELSE r[c].buf IN
  IF broken \/ (k[c].in = 0 /\ (k[c].fin \/ k[c].rst)) \/ k[c].rst
  THEN r' = [r EXCEPT ![c] = R0] /\ k' = Gone(c) /\ Say(up \o <<[op |-> "disconnected", a |-> c, why |-> "error"]>>) /\ UNCHANGED <<q, out, tm, now, left>>
  ELSE /\ k' = [k EXCEPT ![c].in = 0, ![c].out = @ + n]
       /\ r' = [r EXCEPT ![c].st = "up", ![c].buf = @ - n]
       /\ Say(up \o (IF k[c].in > 0 THEN <<[op |-> "recv", a |-> c, n |-> k[c].in, ok |-> TRUE]>> ELSE <<>>))
       /\ UNCHANGED <<q, out, tm, now, left>>
Cmd(st, c, n) == <<[op |-> "command", n |-> n]>> \o
   (CASE c[1] = "dial" -> <<[op |-> "dial", a |-> c[2]]>>
      [] c[1] = "write" -> IF Conn(st, c[2]).st # "none" THEN <<[op |-> "write", a |-> c[2], n |-> 1]>> ELSE <<>>
      [] c[1] = "drop" -> IF Conn(st, c[2]).st # "none" THEN <<[op |-> "drop", a |-> c[2]]>> ELSE <<>>
      [] c[1] = "timer" -> <<[op |-> "timer", t |-> st.t + c[2]]>>
      [] c[1] = "emit" -> <<[op |-> "emit", n |-> n]>>)
RECURSIVE Cmds(_, _)
Cmds(st, cs) == IF cs = <<>> THEN <<>> ELSE LET ls == Cmd(st, Head(cs), st.done + 1) IN ls \o Cmds(Run(st, {}, ls)[1], Tail(cs))
\* What the service hands back for each command it carried out.
RECURSIVE Outs(_, _)
Outs(st, cs) == IF cs = <<>> THEN <<>>
  ELSE LET c == Head(cs) ls == Cmd(st, c, st.done + 1) IN
       (IF c[1] \in {"write", "drop"} /\ Len(ls) = 1 THEN <<>> ELSE <<IF c[1] = "timer" THEN <<"timer", st.t + c[2]>> ELSE IF c[1] = "emit" THEN <<"emit", st.done + 1>> ELSE c>>)
       \o Outs(Run(st, {}, ls)[1], Tail(cs))
Event == pc = "events" /\ \E x \in ready :
   /\ ready' = ready \ {x} /\ pc' = "events"
   /\ CASE x[1] = "peer" -> Handle(x[2])
        [] x[1] = "new" -> k' = [k EXCEPT ![x[2]].new = FALSE] /\ r' = [r EXCEPT ![x[2]].st = "up"] /\ Say(<<[op |-> "connected", a |-> x[2], out |-> FALSE]>>) /\ UNCHANGED <<q, out, tm, now, left>>
        [] OTHER -> q' = <<>> /\ out' = out \o Outs(s, q) /\ Say(Cmds(s, q)) /\ UNCHANGED <<k, r, tm, now, left>>
\* The time of the round is that of its tick.
Wakes == pc = "events" /\ ready = {} /\ pc' = "process" /\ UNCHANGED <<k, r, q, out, now, ready, left>>
         /\ IF \E t \in tm : t <= s.t THEN tm' = {t \in tm : t > s.t} /\ Say(<<[op |-> "expired"]>>) ELSE UNCHANGED <<tm, s, bad>>
Process == pc = "process" /\ IF out = <<>> THEN pc' = "poll" /\ UNCHANGED <<s, bad, k, r, q, out, tm, now, ready, left>> ELSE
   LET o == Head(out) c == o[2] IN
   /\ out' = Tail(out) /\ pc' = "process" /\ UNCHANGED <<q, now, ready, left>>
   /\ CASE o[1] = "dial" -> /\ k' = [k EXCEPT ![c] = [K0 EXCEPT !.st = IF c = Refused THEN "ref" ELSE "est", !.e = k[c].e + 1]]
                            /\ r' = [r EXCEPT ![c].st = "connecting"] /\ Say(<<[op |-> "attempted", a |-> c]>>) /\ UNCHANGED tm
        [] o[1] = "write" -> r' = (IF r[c].st = "none" THEN r ELSE [r EXCEPT ![c].buf = @ + 1]) /\ UNCHANGED <<s, bad, k, tm>>
        [] o[1] = "drop" -> IF r[c].st = "none" THEN UNCHANGED <<s, bad, k, r, tm>>
                            ELSE r' = [r EXCEPT ![c] = R0] /\ k' = Gone(c) /\ Say(<<[op |-> "disconnected", a |-> c, why |-> "told"]>>) /\ UNCHANGED tm
        [] o[1] = "timer" -> tm' = (IF \A t \in tm : T!Dist(t, c) >= Threshold THEN tm \cup {c} ELSE tm) /\ UNCHANGED <<s, bad, k, r>>
        [] OTHER -> Say(<<[op |-> "event", n |-> c]>>) /\ UNCHANGED <<k, r, tm>>
Next == World \/ (\E c \in Conns : PRead(c) \/ PEof(c)) \/ Poll \/ Event \/ Wakes \/ Process
Spec == Init /\ [][Next]_vars
Allowed == bad = {}
\* When nothing is left to do, nothing got lost.
Still == pc = "poll" /\ Ready = {} /\ tm = {} /\ \A c \in Conns : ~(k[c].st = "est" /\ ~k[c].rst /\ (k[c].out > 0 \/ k[c].shut))
Settled == Still => Fails(s, [op |-> "settled"]) = {}
=============================================================================
