------------------------------- MODULE DataMC ------------------------------
(* A node that does its duties at once, in an arbitrary environment: the      *)
(* rules of Data are satisfiable, give the guarantees listed at the end, and  *)
(* whatever happened, one honest peer is enough to get everything in order.   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
CONSTANTS MaxT, Budget, Cap, Jobs, Batches
D == INSTANCE Data WITH MaxHeaders <- 3, MaxUnsol <- 2, GetTimeout <- 2, SyncIdle <- 4, CfTimeout <- 1, CfIdle <- 2, MaxCf <- 2,
       BlockTimeout <- 1, Rebroadcast <- 2, MaxAttempts <- 2, PruneDepth <- 2, TipAge <- 3, BlockAge <- 30, SampleEvery <- 3

\* 0 - 1 - 2 and 1 - 3 - 4. Transaction 1 is in 2 and 4, script 7 is touched by 1 and 3.
Par == <<0, 1, 1, 3>>
RECURSIVE Path(_)
Path(b) == IF b = 0 THEN <<0>> ELSE Append(Path(Par[b]), b)
B == 0..4
Tx == [id |-> 1, cb |-> FALSE, ins |-> <<<<-1, 0>>>>, outs |-> <<1>>, w |-> 4]
World == [D |-> [path |-> [b \in B |-> Path(b)], cw |-> [b \in B |-> Len(Path(b))], val |-> [b \in B |-> TRUE], pre |-> [b \in B |-> TRUE],
                 par |-> [b \in B |-> IF b = 0 THEN -1 ELSE Par[b]], tm |-> [b \in B |-> 0], rank |-> [b \in B |-> b], cph |-> {}, main |-> FALSE],
          now |-> 0, cap |-> Cap, txs |-> [b \in B |-> IF b \in {2, 4} THEN <<Tx>> ELSE <<>>], outs |-> <<{5}>>,
          scr |-> [f \in B |-> CASE f \in {1, 3} -> {7} [] f \in {2, 4} -> {5} [] OTHER -> {}], flen |-> [f \in B |-> 1]]
Heads == {<<<<1, 2>>, <<3, 4>>, <<1, 3, 4>>, <<1>>>>[j] : j \in Batches}
RECURSIVE Hid(_)
Hid(path) == IF Len(path) = 1 THEN 1 ELSE 10 * Hid(Front(path)) + path[Len(path)]

VARIABLES s, done, given, left
vars == <<s, done, given, left>>

\* ---- a node that does its duties ------------------------------------------
Send(x, o) == [s |-> D!Out(x.s, o), out |-> Append(x.out, o)]
RECURSIVE Do(_)
Do(x) ==
  IF x.s.must # <<>>
  THEN LET d == Head(x.s.must)
           p == Min(d.ps)
           w(m) == [k |-> "w", p |-> p, m |-> m]
       IN Do(CASE d.k = "gh" -> Send(x, w("getheaders") @@ [loc |-> IF d.a = <<>> THEN Reverse(D!Act(x.s)) ELSE d.a, stop |-> d.b])
               [] d.k = "gcfh" -> Send(x, w("getcfheaders") @@ [start |-> d.a, stop |-> d.b])
               [] d.k = "gd" -> Send(x, w("getdata") @@ [items |-> <<<<"block", d.a>>>>])
               [] d.k = "h" -> Send(x, w("headers") @@ [b |-> d.a])
               [] d.k = "cfh" -> Send(x, w("cfheaders") @@ d.a)
               [] d.k = "inv" -> Send(x, w("inv") @@ [items |-> SetToSeq({<<"tx", y>> : y \in d.a})])
               [] d.k = "tx" -> Send(x, w("tx") @@ [tx |-> d.a])
               [] OTHER -> Send(x, [k |-> "disc", p |-> p, r |-> "any"]))
  ELSE IF x.s.askf # {} /\ D!CfPeers(x.s) # {}
  THEN LET h == Min(x.s.askf) IN Do(Send(x, [k |-> "w", p |-> Min(D!CfPeers(x.s)), m |-> "getcfilters", start |-> h, stop |-> D!Act(x.s)[h + 1]]))
  ELSE x
\* Reports are given as due.
Act(x, t, m) == LET r == Do([s |-> D!In([x EXCEPT !.t = t], m), out |-> <<>>])
                IN [s |-> D!End([r.s EXCEPT !.seen = r.s.ev]), out |-> r.out, ev |-> r.s.ev]

\* ---- an honest peer -------------------------------------------------------
Join(p, link, h) == [k |-> "join", p |-> p, l |-> link, svc |-> {1, 64}, h |-> h, relay |-> TRUE, wtx |-> FALSE]
CfHeaders(p, start, stop) == LET path == Path(stop) IN
  [k |-> "cfheaders", p |-> p, type |-> 0, stop |-> stop, prev |-> Hid(SubSeq(path, 1, start)),
   fids |-> SubSeq(path, start + 1, Len(path)), hids |-> [j \in 1..(Len(path) - start) |-> Hid(SubSeq(path, 1, start + j))]]
Filter(p, b) == [k |-> "cfilter", p |-> p, type |-> 0, b |-> b, fid |-> b]
Block(p, b) == [k |-> "block", p |-> p, b |-> b, ok |-> TRUE]
Replies(tip, o) ==
  CASE o.k # "w" -> <<>>
    [] o.m = "getheaders" -> LET ans == D!C!Locate(Path(tip), o.loc, o.stop, 3) IN <<[k |-> "headers", p |-> o.p, n |-> Len(ans), b |-> ans]>>
    [] o.m = "getcfheaders" -> IF o.stop \in D!C!Range(Path(tip)) /\ o.start < Len(Path(o.stop)) THEN <<CfHeaders(o.p, o.start, o.stop)>> ELSE <<>>
    [] o.m = "getcfilters" -> IF o.stop \in D!C!Range(Path(tip)) THEN [j \in 1..(Len(Path(o.stop)) - o.start) |-> Filter(o.p, Path(o.stop)[o.start + j])] ELSE <<>>
    [] o.m = "getdata" -> [j \in DOMAIN o.items |-> Block(o.p, o.items[j][2])]
    [] o.m = "inv" -> <<[k |-> "getdata", p |-> o.p, items |-> o.items]>>
    [] OTHER -> <<>>
RECURSIVE Answer(_, _, _)
Answer(x, tip, q) ==                         \* q: what the peer has been sent
  IF q = <<>> THEN x
  ELSE LET r == FoldLeft(LAMBDA a, m : LET n == Act(a.s, a.s.t, m) IN [s |-> n.s, out |-> a.out \o n.out], [s |-> x, out |-> <<>>], Replies(tip, Head(q)))
       IN Answer(r.s, tip, Tail(q) \o r.out)
RECURSIVE Rounds(_, _, _)
Rounds(x, tip, n) == IF n = 0 THEN x ELSE LET r == Act(x, x.t + 1, [k |-> "timer"]) IN Rounds(Answer(r.s, tip, r.out), tip, n - 1)
Settle(x0) ==
  LET x == FoldLeft(LAMBDA a, p : Act(a, a.t, [k |-> "lost", p |-> p]).s, x0, SetToSeq(DOMAIN x0.P))
      tip == IF Len(D!Act(x)) >= 4 THEN D!Tip(x) ELSE 4
      r == Act(x, x.t, Join(9, "out", Len(Path(tip)) - 1))
  IN D!Unsettled(Rounds(Answer(r.s, tip, r.out), tip, 6), 9, tip)

\* ---- the environment ------------------------------------------------------
\* What has been scanned (in this scan) and what matched, of the active chain.
Scanned(d, ev) == FoldLeft(LAMBDA a, e : IF e[1] = "started" THEN <<>> ELSE IF e[1] = "filter" THEN D!Put(a, e[2], <<e[3], e[4]>>) ELSE a, d, ev.scan)
Take(r) == /\ s' = r.s
           /\ done' = Scanned(done, r.ev)
           /\ given' = (given \cup {r.ev.match[j][1] : j \in DOMAIN r.ev.match}) \ {r.ev.chain[j][3] : j \in {j \in DOMAIN r.ev.chain : r.ev.chain[j][1] = "disconnected"}}
Step(m) == left > 0 /\ left' = left - 1 /\ Take(Act(s, s.t, m))
Init == LET r == Act(D!Start(World, <<0>>, <<<<0, 1>>>>), 0, [k |-> "init"])
        IN s = r.s /\ done = <<>> /\ given = {} /\ left = Budget
Rescan(f, tk, t) == [k |-> "rescan", fk |-> "inc", f |-> f, tk |-> tk, t |-> t, watch |-> {7}]
Next ==
  \/ s.t < MaxT /\ UNCHANGED left /\ Take(Act(s, s.t + 1, [k |-> "timer"]))
  \/ \E p \in {1, 2} :
       \/ p \notin DOMAIN s.P /\ Step(Join(p, "out", p + 1))
       \/ p \in DOMAIN s.P /\
            (\/ Step([k |-> "lost", p |-> p])
             \/ \E b \in Heads : Step([k |-> "headers", p |-> p, n |-> Len(b), b |-> b])
             \/ \E q \in DOMAIN s.creq : Step(CfHeaders(p, s.creq[q].start, q))
             \/ \E h \in s.scan.req : h <= D!H(s) /\ Step(Filter(p, D!Act(s)[h + 1]))
             \/ \E b \in DOMAIN s.want : Step(Block(p, b))
             \/ \E x \in s.P[p].out : Step([k |-> "getdata", p |-> p, items |-> <<<<"tx", x>>>>]))
  \/ "scan" \in Jobs /\ Step(Rescan(0, "unb", 0))
  \/ "part" \in Jobs /\ Step(Rescan(1, "inc", 1))
  \/ "tx" \in Jobs /\ s.mem = {} /\ Step([k |-> "submit", tx |-> 1])
  \/ "import" \in Jobs /\ \E b \in Heads : Step([k |-> "import", b |-> b])
Spec == Init /\ [][Next]_vars

\* ---- guarantees -----------------------------------------------------------
Satisfiable == s.bad = {}
\* C05: the filter headers are those of the active chain.
FilterHeaders == Len(s.fl) <= Len(D!Act(s)) /\ \A j \in DOMAIN s.fl : s.fb[j] = D!Act(s)[j] /\ s.fl[j] = <<D!Act(s)[j], Hid(SubSeq(D!Act(s), 1, j))>>
\* C06: the filters held are those of the headers stored.
FiltersHeld == \A h \in DOMAIN s.scan.cache.held : h < Len(s.fl) /\ s.scan.cache.held[h][1] = s.fl[h + 1][1]
\* C07: everything the scan has passed is what the chain has at that height, and all that matched is given, or will be.
ScanOk == \A h \in s.scan.start .. s.scan.cur - 1 : s.scan.on =>
            /\ h \in DOMAIN done /\ done[h][1] = D!Act(s)[h + 1]
            /\ done[h][2] => D!Act(s)[h + 1] \in given \/ h \in s.pend
\* C08: what is still to come has been asked for, or waits its turn.
PendingOk == \A h \in s.pend : h <= D!H(s) /\ (D!Act(s)[h + 1] \in DOMAIN s.want \/ (h \in DOMAIN s.got /\ s.got[h] = D!Act(s)[h + 1]))
QueueOk == s.got # <<>> => s.want # <<>>
\* C09: a submitted transaction is held until confirmed, and on its way to all who relay it.
TxOk == \A x \in s.mem : ~\E h \in DOMAIN s.conf : x \in ToSet(s.conf[h])
\* C23
OneRequest == \A p \in DOMAIN s.P : s.P[p].get.on => s.t - s.P[p].get.at <= 2
Recovers == Settle(s) = {}
=============================================================================
