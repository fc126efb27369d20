-------------------------------- MODULE Net --------------------------------
(* Connections and the address book of a node (C10, C11, C12, C14, C15, C22). *)
(*                                                                            *)
(* A turn of the node takes some inputs and gives outputs. An input changes   *)
(* the state and leaves duties (what the node must now say or do); an output  *)
(* either discharges a duty, or has to be allowed. Nothing may be left over.  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
CONSTANTS ConnTimeout, HandTimeout, PingInterval, Idle, SampleGap, RetryMin, RetryMax, Sec, MinVersion, MaxStale, MaxAddr, MaxRange, FutureLimit,
          MinSamples, MaxSources, MaxAdjust
Clk == INSTANCE Clock

NoPing == [st |-> "none", n |-> 0, at |-> 0]
Gone == [st |-> "none", link |-> "out", at |-> 0, svc |-> {}, vn |-> 0, off |-> 0, rcv |-> 0, h |-> 0, v |-> 0, relay |-> FALSE, wtx |-> FALSE, ping |-> NoPing]
Peers(c) == DOMAIN c.addr
Start(c) == [t |-> 0, cfg |-> c, P |-> [p \in Peers(c) |-> Gone], must |-> <<>>, bad |-> {}, used |-> {}, ready |-> FALSE,
             retry |-> [p \in c.persist |-> [at |-> -1, n |-> 0]], white |-> {},
             book |-> c.book, ban |-> {}, own |-> {}, con |-> {}, clk |-> Clk!New, hungry |-> -1, had |-> {}, new |-> {}, con0 |-> {}, shown |-> {}]

\* ---- duties ---------------------------------------------------------------
\* <<kind, peer, what, n>>
Owe(s, d) == [s EXCEPT !.must = Append(@, d)]
Owed(s, d) == \E k \in DOMAIN s.must : s.must[k] = d
Paid(s, d) == LET k == CHOOSE k \in DOMAIN s.must : s.must[k] = d IN [s EXCEPT !.must = RemoveAt(@, k)]
Flag(s, ps, text) == [s EXCEPT !.bad = @ \cup {<<p, text>> : p \in ps}]
FlagIf(s, c, ps, text) == IF c THEN Flag(s, ps, text) ELSE s
\* What was owed to a connection that is gone is owed no more, but its end is reported.
Forget(s, p) == [s EXCEPT !.must = SelectSeq(@, LAMBDA d : d[2] # p \/ d[1] = "ev")]
Closing(s, p) == s.P[p].st = "closing"
\* The node has to close the connection; cause is the property at stake, class says whether the address stays usable.
Close(s, p, cause, class) == IF Closing(s, p) THEN s ELSE [Owe(s, <<"disc", p, cause, class>>) EXCEPT !.P[p].st = "closing"]

Ip(s, p) == s.cfg.addr[p].ip
Public(s, p) == s.cfg.addr[p].rt /\ ~s.cfg.addr[p].loc
Alive(s, p) == s.P[p].st \in {"connected", "version", "negotiated"}
Negotiated(s, l) == {p \in DOMAIN s.P : s.P[p].st = "negotiated" /\ s.P[p].link = l}
Outbound(s) == {p \in DOMAIN s.P : s.P[p].st = "connecting" \/ (Alive(s, p) /\ s.P[p].link = "out")}
Inbound(s) == {p \in DOMAIN s.P : Alive(s, p) /\ s.P[p].link = "in"}
Preferred(s, p) == s.cfg.pref \subseteq s.P[p].svc
Primary(s) == {p \in Negotiated(s, "out") : Preferred(s, p)}
Unknown(s) == Outbound(s) \ Negotiated(s, "out")
\* How many more outbound connections the node may open by itself.
Room(s) == LET tot == Cardinality(Outbound(s)) max == s.cfg.target + (s.cfg.target \div 2)
               pu == Cardinality(Primary(s)) + Cardinality(Unknown(s))
           IN IF s.cfg.persist # {} \/ tot >= max \/ pu >= s.cfg.target THEN 0 ELSE IF max - tot < s.cfg.target - pu THEN max - tot ELSE s.cfg.target - pu

Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Pow2(n) == IF n > 20 THEN 1048576 ELSE 2 ^ n
Delay(n) == IF n > 13 THEN RetryMax ELSE Clamp(Pow2(n) * Sec, RetryMin, RetryMax)
\* A connection or attempt has ended.
Ended(s, p) ==
  IF p \in s.cfg.persist
  THEN [s EXCEPT !.P[p] = Gone, !.retry[p] = [at |-> s.t + Delay(s.retry[p].n), n |-> s.retry[p].n + 1]]
  ELSE [s EXCEPT !.P[p] = Gone]

\* ---- the address book -----------------------------------------------------
Entry(sock, svc) == [sock |-> sock, svc |-> svc, att |-> FALSE, suc |-> FALSE, smp |-> -1]
Credible(s, a, imported) ==                       \* a = [s |-> socket, svc |-> services, age |-> seconds ahead, zero |-> no time]
  /\ s.cfg.req \subseteq a.svc /\ a.svc \cap s.cfg.old = {}
  /\ (a.zero => imported) /\ (~a.zero => a.age <= FutureLimit)
  /\ s.cfg.addr[a.s].dom \in s.cfg.doms
  /\ a.s \notin s.own /\ Ip(s, a.s) \notin s.ban
  /\ Public(s, a.s)
Learn(s, a, imported) ==
  IF Credible(s, a, imported) /\ Ip(s, a.s) \notin DOMAIN s.book
  THEN [s EXCEPT !.book = @ @@ (Ip(s, a.s) :> Entry(a.s, a.svc))] ELSE s
LearnAll(s, n, list, imported) ==
  IF ~imported /\ (n = 0 \/ n > MaxAddr) THEN s ELSE FoldLeft(LAMBDA x, a : Learn(x, a, imported), s, list)
Ban(s, ip) == [s EXCEPT !.ban = @ \cup {ip}, !.book = [k \in DOMAIN @ \ {ip} |-> @[k]]]
\* Nb. Connections of this very turn may not be known to the address book yet.
ConnectedIp(s, ip) == \E q \in s.con \cap s.con0 : Ip(s, q) = ip
Settled(s) == Cardinality(Negotiated(s, "out") \ s.new)
\* May the node pick this address now?
Usable(s, ip) == /\ ip \in DOMAIN s.book /\ ip \notin s.ban
                 /\ s.cfg.addr[s.book[ip].sock].dom \in s.cfg.doms
                 /\ ~(s.book[ip].att /\ ~s.book[ip].suc)
                 /\ ~ConnectedIp(s, ip)
                 /\ (s.book[ip].smp < 0 \/ s.t - s.book[ip].smp > SampleGap)
\* Addresses that nobody has touched: if there is room, the node can't leave them alone for long.
Fresh(s) == {ip \in DOMAIN s.book : /\ Usable(s, ip) /\ ~s.book[ip].att /\ s.book[ip].smp < 0 /\ ip \notin s.had
                                    /\ (s.cfg.pref \subseteq s.book[ip].svc \/ Cardinality(Negotiated(s, "out")) < s.cfg.target)}
Hungry(s) == Room(s) > 0 /\ Fresh(s) # {}

\* ---- inputs ---------------------------------------------------------------
Connect(s, p, who) ==
  IF s.P[p].st = "none" /\ ~Owed(s, <<"connect", p, "C22", 0>>) /\ ~Owed(s, <<"connect", p, "C11", 0>>) /\ s.cfg.addr[p].dom \in s.cfg.doms
  THEN Owe(s, <<"connect", p, who, 0>>) ELSE s

Trusted(s, p) == Ip(s, p) \in s.white \/ s.cfg.addr[p].loc
\* Why a version message isn't acceptable, if so.
Refusal(s, p, m) ==
  LET out == s.P[p].link = "out" IN
  CASE s.P[p].st # "connected" -> "again"
    [] m.v < MinVersion -> "old"
    [] out /\ ~(s.cfg.req \subseteq m.svc) /\ ~Trusted(s, p) -> "services"
    [] out /\ s.cfg.height - m.h > MaxStale /\ ~Trusted(s, p) -> "stale"
    [] \E q \in DOMAIN s.P : q # p /\ s.P[q].st \in {"version", "negotiated"} /\ s.P[q].link = "out" /\ s.P[q].vn = m.vn -> "self"
    [] out /\ ~(s.cfg.pref \subseteq m.svc) /\ Cardinality(Negotiated(s, "out")) >= s.cfg.target -> "limit"
    [] OTHER -> "none"

InVersion(s, p, m) ==
  LET r == Refusal(s, p, m) IN
  IF ~Alive(s, p) THEN s
  ELSE IF r # "none" THEN Close(s, p, "C10", IF r \in {"stale", "limit"} THEN "keep" ELSE "ban")
  ELSE LET a == IF s.P[p].link = "in" THEN Owe(s, <<"w", p, "version", 0>>) ELSE s
           b == Owe(Owe(a, <<"w", p, "wtxidrelay", 0>>), <<"w", p, "verack", 0>>)
       IN [b EXCEPT !.P[p] = [@ EXCEPT !.st = "version", !.at = s.t, !.svc = m.svc, !.vn = m.vn, !.off = m.off, !.rcv = m.rcv, !.h = m.h, !.v = m.v, !.relay = m.relay]]

In(s, m) ==
  LET p == m.p IN
  CASE m.k = "init"      -> FoldLeft(LAMBDA x, q : Connect(x, q, "C22"), [s EXCEPT !.ready = TRUE], SetToSeq(s.cfg.persist))
    [] m.k = "connected" ->
        LET a == [s EXCEPT !.P[p] = [Gone EXCEPT !.st = "connected", !.link = m.l, !.at = s.t], !.had = @ \cup {Ip(s, p)},
                           !.retry = [q \in DOMAIN @ |-> IF q = p THEN [at |-> -1, n |-> 0] ELSE @[q]]]
            b == Owe(a, <<"ev", p, "connected", 0>>)
        IN IF m.l = "out" THEN Owe(b, <<"w", p, "version", 0>>)
           ELSE IF Cardinality(Inbound(a)) > s.cfg.maxin THEN Close(b, p, "C11", "keep") ELSE b
    [] m.k = "lost"      -> IF s.P[p].st = "connecting" THEN Owe(Ended(Forget(s, p), p), <<"ev", p, "failed", 0>>)
                            ELSE Owe(Ended(Forget(s, p), p), <<"ev", p, "disconnected", 0>>)
    [] m.k = "version"   -> InVersion(s, p, m)
    [] m.k = "verack"    -> (CASE s.P[p].st = "version" ->
                                  [Owe(s, <<"ev", p, "negotiated", 0>>) EXCEPT !.P[p].st = "negotiated", !.new = @ \cup {p}, !.clk = Clk!Record(@, p, s.P[p].off)]
                              [] s.P[p].st = "negotiated" -> Close(s, p, "C10", "ban")
                              [] OTHER -> s)
    [] m.k = "wtxidrelay" -> (CASE s.P[p].st = "version" -> [s EXCEPT !.P[p].wtx = TRUE]
                               [] s.P[p].st = "negotiated" -> Close(s, p, "C10", "ban")
                               [] OTHER -> s)
    [] m.k = "magic"     -> IF Alive(s, p) THEN Close(s, p, "C10", "ban") ELSE s
    [] m.k = "ping"      -> IF s.P[p].st = "negotiated" THEN Owe(s, <<"w", p, "pong", m.n>>) ELSE s
    [] m.k = "pong"      -> IF s.P[p].st = "negotiated" /\ s.P[p].ping.st = "wait" /\ s.P[p].ping.n = m.n
                            THEN [s EXCEPT !.P[p].ping = [st |-> "idle", n |-> 0, at |-> s.t]] ELSE s
    [] m.k = "addr"      -> IF s.P[p].st = "negotiated" THEN LearnAll(s, m.n, m.list, FALSE) ELSE s
    [] m.k = "getaddr"   -> IF s.P[p].st = "negotiated" THEN [Owe(s, <<"w", p, "addr", 0>>) EXCEPT !.shown = @ \cup {s.book}] ELSE s
    [] m.k = "other"     -> s
    [] m.k = "import"    -> LearnAll(s, 0, m.list, TRUE)
    [] m.k = "cconnect"  -> Connect([s EXCEPT !.white = @ \cup {Ip(s, p)}], p, "C11")
    [] m.k = "cdisconnect" -> IF Alive(s, p) THEN Close(s, p, "C11", "ban") ELSE s
    [] m.k = "timer"     ->
        LET due(x, q) ==
              LET r == x.P[q] IN
              CASE r.st = "connecting" /\ s.t - r.at >= ConnTimeout -> Close(x, q, "C11", "keep")
                [] r.st \in {"connected", "version"} /\ s.t - r.at >= HandTimeout -> Close(x, q, "C10", "keep")
                [] r.st = "negotiated" /\ r.ping.st = "wait" /\ s.t - r.ping.at >= s.cfg.pingto -> Close(x, q, "C12", "keep")
                [] r.st = "negotiated" /\ r.ping.st = "idle" /\ s.t - r.ping.at >= PingInterval -> Owe(x, <<"w", q, "ping", 0>>)
                [] OTHER -> x
            again(x, q) == IF x.retry[q].at >= 0 /\ x.retry[q].at <= s.t THEN Connect([x EXCEPT !.retry[q].at = -1], q, "C22") ELSE x
        IN FoldLeft(again, FoldLeft(due, s, SetToSeq(DOMAIN s.P)), SetToSeq(s.cfg.persist))

\* ---- outputs --------------------------------------------------------------
Handshake == {"version", "verack", "wtxidrelay"}
OneEach(s, book, list) ==                  \* a sample of the book: one address of each range
  LET key(a) == s.cfg.addr[a.s].key IN
  /\ \A k \in DOMAIN list : Ip(s, list[k].s) \in DOMAIN book /\ book[Ip(s, list[k].s)].sock = list[k].s /\ book[Ip(s, list[k].s)].svc = list[k].svc
  /\ \A j, k \in DOMAIN list : key(list[j]) = key(list[k]) => j = k
  /\ {key(list[k]) : k \in DOMAIN list} = {s.cfg.addr[book[ip].sock].key : ip \in DOMAIN book}

OutWrite(s, p, o) ==
  CASE o.m \in Handshake -> IF Owed(s, <<"w", p, o.m, 0>>) THEN Paid(s, <<"w", p, o.m, 0>>)
                            ELSE IF Closing(s, p) THEN s ELSE Flag(s, {"C10"}, "handshake message not due")
    [] o.m = "sendheaders" -> FlagIf(s, s.P[p].st \notin {"version", "negotiated", "closing"}, {"C10"}, "sent to a peer without handshake")
    [] o.m = "pong" -> IF Owed(s, <<"w", p, "pong", o.n>>) THEN Paid(s, <<"w", p, "pong", o.n>>) ELSE Flag(s, {"C12"}, "pong without ping")
    [] o.m = "ping" -> IF ~Owed(s, <<"w", p, "ping", 0>>) THEN (IF Closing(s, p) THEN s ELSE Flag(s, {"C12"}, "ping not due"))
                       ELSE FlagIf([Paid(s, <<"w", p, "ping", 0>>) EXCEPT !.P[p].ping = [st |-> "wait", n |-> o.n, at |-> s.t], !.used = @ \cup {o.n}],
                                   o.n \in s.used, {"C12"}, "nonce used before")
    [] o.m = "addr" -> IF ~Owed(s, <<"w", p, "addr", 0>>) THEN Flag(s, {"C14", "C10"}, "addresses sent unasked")
                       ELSE FlagIf(Paid(s, <<"w", p, "addr", 0>>), ~\E b \in s.shown : OneEach(s, b, o.list), {"C14"}, "addresses given are not a sample of the book")
    [] OTHER -> FlagIf(s, s.P[p].st \notin {"negotiated", "closing"}, {"C10"}, "sent to a peer before the handshake was complete")

OutDisc(s, p, o) ==
  LET ds == {d \in ToSet(s.must) : d[1] = "disc" /\ d[2] = p}
      was == s.P[p].st
      att == was = "connecting"
  IN IF ds = {} THEN Flag(Owe(Ended(Forget(s, p), p), <<"ev", p, "disconnected", 0>>), IF was = "negotiated" THEN {"C10", "C11", "C12"} ELSE {"C10", "C11"}, "disconnected without cause")
     ELSE LET d == CHOOSE x \in ds : TRUE
          IN [Owe(Ended(Forget(s, p), p), <<"ev", p, "closed", d[4]>>) EXCEPT !.had = @ \cup {Ip(s, p)}]

\* The node may open a connection by itself.
AutoOk(s, p) == LET ip == Ip(s, p) IN
  /\ Room(s) > 0 /\ Usable(s, ip) /\ s.book[ip].sock = p
  /\ (s.cfg.pref \subseteq s.book[ip].svc \/ Settled(s) < s.cfg.target)
AutoWhy(s, p) == LET ip == Ip(s, p) IN
  IF s.cfg.persist # {} \/ Room(s) = 0 THEN {"C11"} ELSE
  IF ip \notin DOMAIN s.book \/ ip \in s.ban THEN {"C14", "C11"} ELSE
  IF s.cfg.addr[p].dom \notin s.cfg.doms \/ ConnectedIp(s, ip) THEN {"C11", "C14"} ELSE {"C14"}
Dialled(s, p, failed) == IF failed THEN Ended(s, p) ELSE [s EXCEPT !.P[p] = [Gone EXCEPT !.st = "connecting", !.at = s.t]]
OutConnect(s0, p, failed) ==
  LET s == [s0 EXCEPT !.had = @ \cup {Ip(s0, p)}]
      d22 == <<"connect", p, "C22", 0>>
      d11 == <<"connect", p, "C11", 0>>
  IN IF s.P[p].st # "none" THEN Flag(s, {"C11"}, "second connection to a peer")
     ELSE IF Owed(s, d22) THEN Dialled(Paid(s, d22), p, failed)
     ELSE IF Owed(s, d11) THEN Dialled(Paid(s, d11), p, failed)
     ELSE IF p \in s.cfg.persist THEN Flag(s, {"C22"}, "attempt before its time")
     ELSE IF ~AutoOk(s0, p) THEN Flag(s, AutoWhy(s0, p), "connection that should not be opened")
     ELSE [Dialled(s, p, failed) EXCEPT !.book[Ip(s, p)] = [@ EXCEPT !.att = TRUE, !.smp = s.t]]

OutEvent(s, p, o) ==
  CASE o.e = "connected" ->
        IF ~Owed(s, <<"ev", p, "connected", 0>>) THEN Flag(s, {"C10"}, "connection reported that there isn't")
        ELSE [Paid(s, <<"ev", p, "connected", 0>>) EXCEPT !.con = IF Public(s, p) THEN @ \cup {p} ELSE @]
    [] o.e = "negotiated" ->
        LET r == s.P[p]
            a == Paid(s, <<"ev", p, "negotiated", 0>>)
            b == [a EXCEPT !.own = @ \cup {o.rcv},
                           !.book = IF p \in s.con /\ Ip(s, p) \in DOMAIN @ THEN [@ EXCEPT ![Ip(s, p)].suc = TRUE, ![Ip(s, p)].svc = o.svc] ELSE @]
            c == IF r.st = "negotiated" THEN Owe(b, <<"w", p, "ping", 0>>) ELSE b
        IN IF ~Owed(s, <<"ev", p, "negotiated", 0>>) THEN Flag(s, {"C10"}, "peer reported negotiated without handshake")
           ELSE FlagIf(c, r.st = "negotiated" /\ ~(o.l = r.link /\ o.svc = r.svc /\ o.h = r.h /\ o.v = (IF r.v > s.cfg.ours THEN s.cfg.ours ELSE r.v) /\ o.relay = r.relay
                          /\ o.wtx = r.wtx /\ o.pers = (p \in s.cfg.persist) /\ o.rcv = r.rcv), {"C10"}, "peer reported with wrong properties")
    [] o.e = "disconnected" ->
        LET ds == {d \in ToSet(s.must) : d[1] = "ev" /\ d[2] = p /\ d[3] \in {"disconnected", "closed"}}
            d == CHOOSE x \in ds : TRUE
            a == [Paid(s, d) EXCEPT !.con = @ \ {p}]
            b == IF d[3] = "closed" /\ d[4] = "ban" /\ p \in s.con THEN Ban(a, Ip(s, p)) ELSE a
        IN IF ds = {} THEN Flag(s, {"C10"}, "disconnection reported that there isn't")
           ELSE FlagIf(b, Owed(s, <<"ev", p, "connected", 0>>) \/ Owed(s, <<"ev", p, "negotiated", 0>>), {"C10"}, "end reported before the beginning")
    [] o.e = "failed" ->
        IF Owed(s, <<"ev", p, "failed", 0>>) THEN Paid(s, <<"ev", p, "failed", 0>>)
        ELSE IF Owed(s, <<"ev", p, "closed", "keep">>) THEN Paid(s, <<"ev", p, "closed", "keep">>)
        ELSE Flag(s, {"C10"}, "failure reported that there isn't")
    [] o.e = "connecting" -> IF Ip(s, p) \in DOMAIN s.book THEN [s EXCEPT !.book[Ip(s, p)] = [@ EXCEPT !.att = TRUE, !.smp = s.t]] ELSE s
    [] OTHER -> s

Out(s, o) ==
  CASE o.k = "w" -> OutWrite(s, o.p, o)
    [] o.k = "disc" -> OutDisc(s, o.p, o)
    [] o.k = "connect" -> OutConnect(s, o.p, o.f)
    [] o.k = "ev" -> OutEvent(s, o.p, o)

\* ---- after a turn ---------------------------------------------------------
Optional(d) == d[1] = "ev" /\ d[3] = "failed"
Prop(d) == CASE d[1] = "w" -> (IF d[3] \in {"ping", "pong"} THEN {"C12"} ELSE IF d[3] = "addr" THEN {"C14"} ELSE {"C10"})
             [] d[1] \in {"disc", "connect"} -> {d[3]}
             [] OTHER -> {"C10"}
What(d) == CASE d[1] = "w" -> "not sent: " \o d[3] [] d[1] = "disc" -> "not disconnected" [] d[1] = "connect" -> "not connected" [] OTHER -> "not reported: " \o d[3]
Overdue(s, q) == LET r == s.P[q] IN
  CASE r.st = "connecting" /\ s.t - r.at > ConnTimeout -> {<<"C11", "attempt never given up">>}
    [] r.st \in {"connected", "version"} /\ s.t - r.at > HandTimeout -> {<<"C10", "handshake never given up">>}
    [] r.st = "negotiated" /\ r.ping.st = "wait" /\ s.t - r.ping.at > s.cfg.pingto -> {<<"C12", "silent peer kept">>}
    [] r.st = "negotiated" /\ r.ping.st = "idle" /\ s.t - r.ping.at > PingInterval -> {<<"C12", "peer not probed">>}
    [] OTHER -> {}
Left(s) == SelectSeq(s.must, LAMBDA d : ~Optional(d))
End(s) ==
  LET rest == Left(s)
      late == UNION {Overdue(s, q) : q \in DOMAIN s.P} \cup {<<"C22", "no attempt although its time has come">> : q \in {q \in DOMAIN s.retry : s.retry[q].at >= 0 /\ s.retry[q].at < s.t}}
      over == (IF Cardinality(Inbound(s)) > s.cfg.maxin THEN {<<"C11", "too many inbound peers">>} ELSE {})
      h == IF ~s.ready \/ ~Hungry(s) THEN -1 ELSE IF s.hungry < 0 THEN s.t ELSE s.hungry
      slow == IF h >= 0 /\ s.t - h > Idle THEN {<<"C11", "room for peers and usable addresses, but no attempt">>} ELSE {}
  IN [s EXCEPT !.must = <<>>, !.hungry = h, !.bad = @ \cup UNION {{<<q, What(rest[k])>> : q \in Prop(rest[k])} : k \in DOMAIN rest} \cup late \cup over \cup slow]

Turn(s, t, ins, outs) == End(FoldLeft(Out, FoldLeft(In, [s EXCEPT !.t = t, !.new = {}, !.shown = {}, !.con0 = s.con], ins), outs))
=============================================================================
