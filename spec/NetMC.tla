------------------------------- MODULE NetMC -------------------------------
(* A node that does its duties at once, in an arbitrary environment: the      *)
(* rules of Net are satisfiable and give the guarantees listed at the end.    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
CONSTANTS MaxT, Targets, MaxIns, Persists, MaxNonce, Budget
N == INSTANCE Net WITH ConnTimeout <- 1, HandTimeout <- 2, PingInterval <- 2, Idle <- 1, SampleGap <- 1, RetryMin <- 1, RetryMax <- 2, Sec <- 1,
       MinVersion <- 2, MaxStale <- 1, MaxAddr <- 2, MaxRange <- 2, FutureLimit <- 1, MinSamples <- 2, MaxSources <- 3, MaxAdjust <- 2
\* Sockets: 1 and 2 may be dialled, 3 comes in, from the host of 2.
Addrs == <<[ip |-> 1, key |-> 1, dom |-> "v4", rt |-> TRUE, loc |-> FALSE],
           [ip |-> 2, key |-> 2, dom |-> "v4", rt |-> TRUE, loc |-> FALSE],
           [ip |-> 2, key |-> 2, dom |-> "v4", rt |-> TRUE, loc |-> FALSE]>>
Cfg(tg, mi, ps) == [addr |-> Addrs, persist |-> ps, target |-> tg, maxin |-> mi, doms |-> {"v4"}, pingto |-> 1, height |-> 3,
                    req |-> {1}, pref |-> {1, 64}, old |-> {4}, ours |-> 3, book |-> 1 :> N!Entry(1, {1, 64})]
VARIABLES s, past, left
vars == <<s, past, left>>

RECURSIVE Do(_)
Do(x) == IF x.must = <<>> THEN x
         ELSE LET d == Head(x.must) p == d[2] IN
              Do(CASE d[1] = "w" /\ d[3] = "ping" -> N!Out(x, [k |-> "w", p |-> p, m |-> "ping", n |-> Cardinality(x.used) + 1])
                   [] d[1] = "w" /\ d[3] = "pong" -> N!Out(x, [k |-> "w", p |-> p, m |-> "pong", n |-> d[4]])
                   [] d[1] = "w" -> N!Out(x, [k |-> "w", p |-> p, m |-> d[3]])
                   [] d[1] = "disc" -> N!Out(x, [k |-> "disc", p |-> p])
                   [] d[1] = "connect" -> N!Out(x, [k |-> "connect", p |-> p, f |-> FALSE])
                   [] d[3] = "negotiated" -> N!Out(x, LET r == x.P[p] IN [k |-> "ev", e |-> "negotiated", p |-> p, l |-> r.link, svc |-> r.svc, h |-> r.h,
                                                        v |-> r.v, relay |-> r.relay, wtx |-> r.wtx, pers |-> p \in x.cfg.persist, rcv |-> r.rcv])
                   [] OTHER -> N!Out(x, [k |-> "ev", p |-> p, e |-> IF d[3] = "closed" THEN "disconnected" ELSE d[3]]))
Able(x) == {p \in DOMAIN Addrs : x.P[p].st = "none" /\ N!AutoOk(x, p)}
RECURSIVE Fill(_)
Fill(x) == IF Able(x) = {} THEN x ELSE Fill(N!Out(x, [k |-> "connect", p |-> CHOOSE p \in Able(x) : TRUE, f |-> FALSE]))
React(x, t, m) == N!End(Fill(Do(N!In([x EXCEPT !.t = t, !.new = {}, !.shown = {}, !.con0 = x.con], m))))

Init == /\ \E tg \in Targets, mi \in MaxIns, ps \in Persists : s = React(N!Start(Cfg(tg, mi, ps)), 0, [k |-> "init", p |-> 0])
        /\ past = [p \in DOMAIN Addrs |-> <<>>] /\ left = Budget
Step(m) == left > 0 /\ left' = left - 1 /\ s' = React(s, s.t, m)
Note(p, x) == past' = [past EXCEPT ![p] = Append(@, x)]
Version(p, v, svc, h, off) == [k |-> "version", p |-> p, v |-> v, svc |-> svc, h |-> h, off |-> off, rcv |-> 0, relay |-> TRUE, vn |-> p]
Next ==
  \/ /\ s.t < MaxT /\ s' = React(s, s.t + 1, [k |-> "timer", p |-> 0]) /\ UNCHANGED <<past, left>>
  \/ \E p \in DOMAIN Addrs :
       \/ s.P[p].st = "connecting" /\ Step([k |-> "connected", p |-> p, l |-> "out"]) /\ past' = [past EXCEPT ![p] = <<>>]
       \/ p = 3 /\ s.P[p].st = "none" /\ Step([k |-> "connected", p |-> p, l |-> "in"]) /\ past' = [past EXCEPT ![p] = <<>>]
       \/ s.P[p].st # "none" /\ Step([k |-> "lost", p |-> p]) /\ UNCHANGED past
       \/ N!Alive(s, p) /\ Len(past[p]) < 3 /\
            (\/ \E x \in {<<3, {1, 64}, 3, 1>>, <<2, {1}, 2, -1>>, <<1, {1}, 3, 0>>, <<3, {}, 3, 0>>, <<3, {1, 64}, 1, 0>>} :
                  Step(Version(p, x[1], x[2], x[3], x[4])) /\ Note(p, "version")
             \/ \E k \in {"verack", "magic"} : Step([k |-> k, p |-> p]) /\ Note(p, k))
       \/ s.P[p].st = "negotiated" /\ UNCHANGED past /\
            (\/ Cardinality(s.used) < MaxNonce /\ \E n \in s.used : Step([k |-> "pong", p |-> p, n |-> n])
             \/ Step([k |-> "addr", p |-> p, n |-> 1, list |-> <<[s |-> 2, svc |-> {1}, age |-> 0, zero |-> FALSE]>>]))
       \/ p # 3 /\ s.P[p].st = "none" /\ Step([k |-> "cconnect", p |-> p]) /\ UNCHANGED past
       \/ N!Alive(s, p) /\ Step([k |-> "cdisconnect", p |-> p]) /\ UNCHANGED past
Spec == Init /\ [][Next]_vars
Bound == Cardinality(s.used) <= MaxNonce

Satisfiable == s.bad = {}
\* C10: a peer in service introduced itself and acknowledged, and qualifies.
InService == \A p \in DOMAIN s.P : s.P[p].st = "negotiated" =>
               /\ \E j, k \in DOMAIN past[p] : j < k /\ past[p][j] = "version" /\ past[p][k] = "verack"
               /\ s.P[p].v >= 2 /\ (s.P[p].link = "out" /\ N!Ip(s, p) \notin s.white => 1 \in s.P[p].svc /\ s.P[p].h >= 2)
NoneStuck == \A p \in DOMAIN s.P : /\ s.P[p].st = "connecting" => s.t - s.P[p].at <= 1
                                   /\ s.P[p].st \in {"connected", "version"} => s.t - s.P[p].at <= 2
                                   /\ s.P[p].st # "closing"
\* C11
Limits == Cardinality(N!Inbound(s)) <= s.cfg.maxin
\* C12
Probed == \A p \in DOMAIN s.P : s.P[p].st = "negotiated" =>
            s.P[p].ping.st \in {"wait", "idle"} /\ s.t - s.P[p].ping.at <= (IF s.P[p].ping.st = "wait" THEN 1 ELSE 2)
\* C14
BookOk == \A ip \in DOMAIN s.book : ip \notin s.ban
\* C15
TimeOk == s.clk.off \in -2..2
\* C22: a persistent peer is connected, being connected, or will be tried again.
NeverGivenUp == \A p \in s.cfg.persist : s.P[p].st # "none" \/ (s.retry[p].at >= s.t /\ s.retry[p].at <= s.t + 2)
============================================================================
