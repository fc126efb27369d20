----------------------------- MODULE DataTrace ------------------------------
(* Validates recorded turns of the real state machine against Data. *)
EXTENDS TraceBase
D == INSTANCE Data WITH MaxHeaders <- 2000, MaxUnsol <- 24, GetTimeout <- 30000, SyncIdle <- 600000, CfTimeout <- 6000, CfIdle <- 60000, MaxCf <- 2000,
       BlockTimeout <- 15000, Rebroadcast <- 60000, MaxAttempts <- 3, PruneDepth <- 12, TipAge <- 1800000, BlockAge <- 7200000, SampleEvery <- 3600000
RECURSIVE Path(_, _)
Path(par, b) == IF b = 0 THEN <<0>> ELSE Append(Path(par, par[b]), b)
World(l) ==
  LET B == 0 .. l.n
      at(q, b, z) == IF b = 0 THEN z ELSE q[b]
      path == [b \in B |-> Path(l.par, b)]
      d == [path |-> path, cw |-> [b \in B |-> Len(path[b])], val |-> [b \in B |-> at(l.val, b, TRUE)], pre |-> [b \in B |-> at(l.pre, b, TRUE)],
            par |-> [b \in B |-> at(l.par, b, -1)], tm |-> [b \in B |-> at(l.tm, b, 0)], rank |-> [b \in B |-> l.rank[b + 1]], cph |-> {}, main |-> FALSE]
      w == [D |-> d, now |-> l.now, cap |-> l.cap, txs |-> [b \in B |-> l.txs[b + 1]], outs |-> [x \in DOMAIN l.outs |-> Rng(l.outs[x])],
            scr |-> [f \in 0 .. Len(l.scr) - 1 |-> Rng(l.scr[f + 1])], flen |-> [f \in 0 .. Len(l.flen) - 1 |-> l.flen[f + 1]]]
  IN D!Start(w, l.act, SubSeq(l.fl, 1, IF Len(l.fl) < Len(l.act) THEN Len(l.fl) ELSE Len(l.act)))   \* filter headers past the block headers are dropped
Fix(m) == IF m.k \in {"rescan", "watch"} THEN [m EXCEPT !.watch = Rng(@)] ELSE IF m.k = "join" THEN [m EXCEPT !.svc = Rng(@)] ELSE m
Map(q) == [j \in DOMAIN q |-> Fix(q[j])]
Look(s, l) ==
  (IF l.chain = D!Act(s) THEN {} ELSE {<<"C23", "the active chain">>, <<"C03", "the active chain">>})
  \cup (IF l.fl = s.fl THEN {} ELSE {<<"C05", "stored filter headers">>})
  \cup (IF Rng(l.mem) = s.mem THEN {} ELSE {<<"C09", "transactions held">>})
  \cup (IF s.rep = <<>> \/ s.rep[1] = Rng(l.rep) THEN {} ELSE {<<p, "reply to a command">> : p \in {"C09", "C03", "C07"}})
\* A turn that leaves everything as it was, for speed.
VARIABLES i, s, bad, skip
vars == <<i, s, bad, skip>>
L == Trace[i]
Init == i = 1 /\ s = [t |-> 0] /\ bad = {} /\ skip = FALSE
Result == CASE L.op \in {"world", "restart"} -> [s |-> World(L), all |-> {}]
            [] L.op = "settled" -> [s |-> s, all |-> D!Unsettled(s, L.p, L.tip)]
            [] OTHER -> LET n == D!Turn(s, L.t, Map(L.ins), L.out) e == D!End(n) IN [s |-> e, all |-> e.bad \cup Look(n, L)]
Next == /\ i <= Len(Trace) /\ bad = {}
        /\ i' = i + 1
        /\ IF L.op = "panic" THEN bad' = {"panic"} /\ UNCHANGED <<s, skip>>
           ELSE IF skip /\ L.op \notin {"world", "restart"} THEN UNCHANGED <<s, bad, skip>>
           ELSE LET r == Result
                IN /\ bad' = {x[2] : x \in {x \in r.all : x[1] = Prop \/ Prop = "ALL"}}
                   /\ skip' = (r.all # {})
                   /\ s' = r.s
Spec == Init /\ [][Next]_vars
Ok == bad = {} \/ PrintT(<<"FAIL", i - 1, bad>>)
=============================================================================
