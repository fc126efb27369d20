------------------------------ MODULE NetTrace ------------------------------
(* Validates recorded turns of the real state machine against Net. *)
EXTENDS TraceBase
N == INSTANCE Net WITH ConnTimeout <- 6000, HandTimeout <- 12000, PingInterval <- 120000, Idle <- 60000, SampleGap <- 120000,
       RetryMin <- 1000, RetryMax <- 3600000, Sec <- 1000, MinVersion <- 70012, MaxStale <- 2016, MaxAddr <- 1000, MaxRange <- 256, FutureLimit <- 3600,
       MinSamples <- 5, MaxSources <- 200, MaxAdjust <- 4200
Addr(a) == [s |-> a.s, svc |-> Rng(a.svc), age |-> a.age, zero |-> a.zero]
Fix(m) == CASE m.k = "version" -> [m EXCEPT !.svc = Rng(@)]
            [] m.k \in {"addr", "import"} -> [m EXCEPT !.list = [j \in DOMAIN @ |-> Addr(@[j])]]
            [] m.k = "w" -> IF m.m = "addr" THEN [m EXCEPT !.list = [j \in DOMAIN @ |-> [s |-> @[j].s, svc |-> Rng(@[j].svc)]]] ELSE m
            [] m.k = "ev" -> IF m.e = "negotiated" THEN [m EXCEPT !.svc = Rng(@)] ELSE m
            [] OTHER -> m
Map(q) == [j \in DOMAIN q |-> Fix(q[j])]
Entries(q) == {<<q[j].ip, q[j].s, Rng(q[j].svc), q[j].att, q[j].suc>> : j \in DOMAIN q}
World(l) == N!Start([addr |-> l.addr, persist |-> Rng(l.persist), target |-> l.target, maxin |-> l.maxin, doms |-> Rng(l.doms), pingto |-> l.pingto,
                     height |-> l.height, req |-> {1}, pref |-> {1, 64}, old |-> {2, 4}, ours |-> 70016,
                     book |-> [ip \in {l.book[j].ip : j \in DOMAIN l.book} |-> LET b == CHOOSE b \in Rng(l.book) : b.ip = ip IN N!Entry(b.s, Rng(b.svc))]])
Held(s) == {<<ip, s.book[ip].sock, s.book[ip].svc, s.book[ip].att, s.book[ip].suc>> : ip \in DOMAIN s.book}
InRange(s, ips, k) == {ip \in ips : s.cfg.addr[s.book[ip].sock].key = k}
Keys(s) == {s.cfg.addr[s.book[ip].sock].key : ip \in DOMAIN s.book}
\* If a range of the book is full, an arbitrary address of it makes room for the new one.
Full(s) == \E k \in Keys(s) : Cardinality(InRange(s, DOMAIN s.book, k)) > 256
Seen(l) == {l.book[j].ip : j \in DOMAIN l.book}
Adopt(s, l) == IF Full(s) THEN [s EXCEPT !.book = [ip \in DOMAIN @ \cap Seen(l) |->
                 LET b == CHOOSE b \in Rng(l.book) : b.ip = ip IN [@[ip] EXCEPT !.att = b.att, !.smp = IF s.book[ip].att /\ ~b.att THEN -1 ELSE @, !.suc = b.suc, !.svc = Rng(b.svc), !.sock = b.s]]] ELSE s
BookOk(s, l) == IF Full(s) THEN /\ Seen(l) \subseteq DOMAIN s.book
                                /\ \A k \in Keys(s) : LET n == Cardinality(InRange(s, DOMAIN s.book, k)) IN
                                     Cardinality(InRange(s, DOMAIN s.book \cap Seen(l), k)) = (IF n > 256 THEN 256 ELSE n)
                ELSE Entries(l.book) = Held(s)
Peers(s) == {<<p, s.P[p].link, s.P[p].svc, s.P[p].h>> : p \in N!Negotiated(s, "in") \cup N!Negotiated(s, "out")}
Step(s, l) == IF l.op = "world" THEN World(l) ELSE N!Turn(s, l.t, Map(l.ins), Map(l.out))
Look(s, l) ==
  (IF {<<q.p, q.l, Rng(q.svc), q.h>> : q \in Rng(l.peers)} = Peers(s) THEN {} ELSE {<<"C10", "the peers in service are not those with a complete handshake">>})
  \cup (IF BookOk(s, l) THEN {} ELSE {<<"C14", "address book">>})
  \cup (IF l.off = s.clk.off THEN {} ELSE {<<"C15", "network time isn't the median of the peers' offsets">>})

VARIABLES i, s, bad, skip
vars == <<i, s, bad, skip>>
L == Trace[i]
Init == i = 1 /\ s = [t |-> 0] /\ bad = {} /\ skip = FALSE
Next == /\ i <= Len(Trace) /\ bad = {}
        /\ i' = i + 1
        /\ IF L.op = "panic" THEN bad' = {"panic"} /\ UNCHANGED <<s, skip>>
           ELSE IF skip /\ L.op # "world" THEN UNCHANGED <<s, bad, skip>>
           ELSE LET n == Step(s, L)
                    all == n.bad \cup (IF L.op = "world" THEN {} ELSE Look(n, L))
                IN /\ bad' = {x[2] : x \in {x \in all : x[1] = Prop \/ Prop = "ALL"}}
                   /\ skip' = (all # {})
                   /\ s' = IF L.op = "world" THEN n ELSE Adopt(n, L)
Spec == Init /\ [][Next]_vars
Ok == bad = {} \/ PrintT(<<"FAIL", i - 1, bad>>)
=============================================================================
