-------------------------------- MODULE Data --------------------------------
(* What a node does with its peers and its user once connections stand:      *)
(* header sync (C23, C03, C13), filter headers (C05), filters (C06), scans   *)
(* (C07), blocks (C08, C21) and submitted transactions (C09).                *)
(*                                                                           *)
(* As in Net, a turn takes inputs and gives outputs. An input changes the    *)
(* state, adds the events that have to be reported (in order, by kind) and   *)
(* the messages that have to be sent. At the end of the turn the reports     *)
(* must be exactly those due, and no message may be missing.                 *)
(*                                                                           *)
(* Blocks are numbered from genesis 0; -1 is any hash nobody knows and -2    *)
(* the null hash. Filters are numbered like the blocks they are genuine for, *)
(* higher numbers are false ones. Headers of filters are numbered as they    *)
(* come; 0 is the null header.                                               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
CONSTANTS MaxHeaders, MaxUnsol, GetTimeout, SyncIdle, CfTimeout, CfIdle, MaxCf, BlockTimeout, Rebroadcast, MaxAttempts, PruneDepth, TipAge, BlockAge, SampleEvery
C == INSTANCE Chain
F == INSTANCE Fees
K == INSTANCE FCache

Never == -100000000
NoGet == [on |-> FALSE, at |-> 0, loc |-> <<>>, stop |-> -2, how |-> "ignore", n |-> 0]
NoScan(cap) == [on |-> FALSE, cur |-> 0, start |-> 0, end |-> -1, watch |-> {}, txs |-> {}, req |-> {}, rcv |-> <<>>, cache |-> K!New(cap), lastp |-> Never]
NoEv == [chain |-> <<>>, recv |-> <<>>, scan |-> <<>>, blk |-> <<>>, fee |-> <<>>, match |-> <<>>, tx |-> <<>>, sync |-> <<>>]
Start(w, act, fl) ==
  [t |-> 0, W |-> w, tr |-> [act |-> act, orp |-> {}], P |-> <<>>, fl |-> fl, fb |-> [j \in DOMAIN fl |-> act[j]], creq |-> <<>>, scan |-> NoScan(w.cap), pend |-> {},
   want |-> <<>>, got |-> <<>>, mem |-> {}, conf |-> <<>>, fees |-> F!New, sidle |-> Never, cidle |-> Never, tipat |-> Never, smpat |-> Never,
   must |-> <<>>, askf |-> {}, may |-> {}, gone |-> {}, ask |-> {}, upto |-> {}, ev |-> NoEv, seen |-> NoEv, rep |-> <<>>, bad |-> {}]

\* ---- helpers --------------------------------------------------------------
Act(s) == s.tr.act
Tip(s) == Act(s)[Len(Act(s))]
H(s) == Len(Act(s)) - 1
FH(s) == Len(s.fl) - 1
OnChain(s, b) == b \in C!Range(Act(s))
Known(s, b) == b >= 0 /\ C!Known(s.tr, b)
HeightOf(s, b) == Len(s.W.D.path[b]) - 1
Drop(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Put(f, x, y) == (x :> y) @@ f
Flag(s, ps, text) == [s EXCEPT !.bad = @ \cup {<<p, text>> : p \in ps}]
FlagIf(s, c, ps, text) == IF c THEN Flag(s, ps, text) ELSE s
\* A message that has to be sent to one of ps, or a disconnection. w is what is at stake.
Owe(s, d) == [s EXCEPT !.must = Append(@, d)]
Duty(k, ps, a, b, how, w) == [k |-> k, ps |-> ps, a |-> a, b |-> b, how |-> how, w |-> w]
Pay(s, j) == [s EXCEPT !.must = RemoveAt(@, j)]
Ev(s, kind, e) == [s EXCEPT !.ev[kind] = Append(@, e)]
Seen(s, kind, e) == [s EXCEPT !.seen[kind] = Append(@, e)]
Misbehaved(s, p, w) == IF p \in DOMAIN s.P /\ ~\E j \in DOMAIN s.must : s.must[j].k = "disc" /\ s.must[j].ps = {p} THEN Owe(s, Duty("disc", {p}, 0, 0, "", w)) ELSE s

SyncPeers(s) == {p \in DOMAIN s.P : s.P[p].sync}
CfPeers(s) == {p \in DOMAIN s.P : s.P[p].cf}
NetPeers(s) == {p \in DOMAIN s.P : s.P[p].inv /\ s.P[p].net}

\* ---- header sync ----------------------------------------------------------
\* Who can be asked for headers.
Cands(s) == {p \in SyncPeers(s) : s.P[p].link = "out" /\ ~s.P[p].get.on /\ s.P[p].h > H(s)}
\* The request for what follows our chain is on its way.
Asking(s) == \/ \E p \in DOMAIN s.P : LET g == s.P[p].get IN g.on /\ g.stop = -2 /\ g.loc # <<>> /\ g.loc[1] = Tip(s) /\ (Len(g.loc) > 1 \/ H(s) = 0)
             \/ \E j \in DOMAIN s.must : s.must[j].k = "gh" /\ s.must[j].how = "sync"
\* The last block is old, or came long ago.
Stale(s) == \/ s.tipat # Never /\ s.t - s.tipat > TipAge
            \/ s.W.D.tm[Tip(s)] * 1000 <= s.W.now * 1000 + s.t - BlockAge
InSync(s) == ~Stale(s) /\ \A p \in SyncPeers(s) : s.P[p].h <= H(s)
Sync(s) == IF SyncPeers(s) = {} THEN s ELSE IF InSync(s) THEN Ev(s, "sync", <<Tip(s), H(s)>>)
           ELSE IF Cands(s) = {} \/ Asking(s) THEN s ELSE Owe(s, Duty("gh", Cands(s), <<>>, -2, "sync", {"C23"}))
Started(s, n) == \E j \in DOMAIN n.must : n.must[j].how = "sync" /\ ~\E k \in DOMAIN s.must : s.must[k] = n.must[j]
\* Now and then, with a stale tip, all peers are asked.
Ignorant(s) == {p \in SyncPeers(s) : s.P[p].link = "out" /\ ~s.P[p].get.on /\ ~(s.P[p].asked # <<>> /\ s.P[p].asked[1] = Tip(s) /\ (Len(s.P[p].asked) > 1 \/ H(s) = 0))}
SyncOrAsk(s) == LET n == Sync(s) IN
  IF Started(s, n) \/ ~Stale(s) \/ s.t - s.smpat < SampleEvery THEN n
  ELSE [FoldLeft(LAMBDA x, p : Owe(x, Duty("gh", {p}, <<>>, -2, "ignore", {"C23"})), n, SetToSeq(Ignorant(n))) EXCEPT !.smpat = s.t]
Syncing(s) == \E p \in DOMAIN s.P : s.P[p].get.on

\* ---- filter headers and filters -------------------------------------------
Remaining(s) == s.scan.cur .. (IF s.scan.end >= 0 /\ s.scan.end < FH(s) THEN s.scan.end ELSE FH(s))
\* Filters held in the cache are used where the scan hasn't been yet.
Load(s, S) == LET hs == IF s.scan.on THEN {h \in S \cap DOMAIN s.scan.cache.held : h >= s.scan.cur /\ h <= H(s)} ELSE {}
              IN [s EXCEPT !.scan.rcv = [h \in hs |-> <<s.scan.cache.held[h][1], Act(s)[h + 1]>>] @@ @]
\* The node asks for the filters of these heights, unless it did or has them.
GetOk(s, lo, hi) == CfPeers(s) # {} /\ lo <= hi /\ hi <= FH(s)
Get(s, lo, hi) == IF ~GetOk(s, lo, hi) THEN s
                  ELSE LET a == Load(s, lo..hi) need == (lo..hi) \ (DOMAIN a.scan.rcv \cup a.scan.req)
                       IN [a EXCEPT !.scan.req = @ \cup need, !.askf = @ \cup need]
CSync(s) ==
  IF FH(s) > H(s) THEN s ELSE
  LET stop == Act(s)[(IF H(s) > FH(s) + MaxCf THEN FH(s) + MaxCf ELSE H(s)) + 1]
      a == IF FH(s) < H(s) /\ CfPeers(s) # {} /\ stop \notin DOMAIN s.creq
           THEN [Owe(s, Duty("gcfh", CfPeers(s), FH(s) + 1, stop, "", {"C05"})) EXCEPT !.creq = Put(@, stop, [start |-> FH(s) + 1, p |-> 0, exp |-> s.t + CfTimeout])]
           ELSE s
  IN IF s.scan.on THEN Get(a, s.scan.cur, Max(Remaining(a) \cup {-1})) ELSE a

Matches(s, fid) == LET S == s.W.scr[fid] IN s.scan.watch \cap S # {} \/ \E x \in s.scan.txs : s.W.outs[x] \subseteq S
Want(s, b) == [s EXCEPT !.want = IF b \in DOMAIN @ THEN @ ELSE Put(@, b, Never)]
\* Filters are handled in order of height. `again` says that blocks are requested even if their height is pending already.
RECURSIVE Scan(_, _)
Scan(s, again) ==
  LET h == s.scan.cur IN
  IF (s.scan.end >= 0 /\ h > s.scan.end) \/ h \notin DOMAIN s.scan.rcv
  THEN IF s.scan.on /\ s.scan.end >= 0 /\ h > s.scan.end THEN Ev([s EXCEPT !.scan.on = FALSE], "scan", <<"stopped", s.scan.end>>) ELSE s
  ELSE LET r == s.scan.rcv[h]
           m == Matches(s, r[1])
           a == Ev([s EXCEPT !.scan.rcv = Drop(@, {h}), !.scan.cur = h + 1], "scan", <<"filter", h, r[2], m>>)
       IN Scan(IF ~m THEN a ELSE IF again \/ h \notin s.pend THEN Want([a EXCEPT !.pend = @ \cup {h}], r[2]) ELSE a, again)

\* ---- blocks and transactions ----------------------------------------------
Announce(s, x) == [s EXCEPT !.mem = @ \cup {x}, !.P = [p \in DOMAIN @ |-> IF @[p].inv /\ @[p].relay THEN [@[p] EXCEPT !.out = @ \cup {x}] ELSE @[p]]]
Confirm(s, x, b, h) ==
  IF x \notin s.mem THEN s
  ELSE Ev([s EXCEPT !.mem = @ \ {x}, !.conf = IF h \in DOMAIN @ THEN [@ EXCEPT ![h] = Append(@, x)] ELSE Put(@, h, <<x>>), !.scan.txs = @ \ {x},
                    !.P = [p \in DOMAIN @ |-> [@[p] EXCEPT !.out = @ \ {x}]]], "tx", <<"confirmed", x, b, h>>)
RECURSIVE Deliver(_)
Deliver(s) ==
  IF s.want # <<>> \/ s.got = <<>> THEN s
  ELSE LET h == Min(DOMAIN s.got)
           b == s.got[h]
           txs == s.W.txs[b]
           a == FoldLeft(LAMBDA x, tx : Confirm(x, tx.id, b, h), [s EXCEPT !.got = Drop(@, {h})], txs)
           c == Ev(Ev(a, "blk", <<b, h>>), "fee", <<h, F!Result(s.fees, h, txs)>>)
           e == [c EXCEPT !.fees = F!Process(@, h, txs)]
           f == [e EXCEPT !.pend = @ \ {h}]
           \* How far the chain has been scanned, exclusive.
           top == IF f.pend = {} /\ f.scan.cur > h THEN f.scan.cur ELSE h
       IN Deliver(IF h \in e.pend THEN Ev([f EXCEPT !.upto = @ \cup {top}], "match", <<b, h>>) ELSE e)
\* The block has left the chain.
Revert(s, h, b) ==
  LET a == [s EXCEPT !.fees = F!Rollback(@, h - 1), !.want = Drop(@, {b}), !.got = IF h \in DOMAIN @ /\ @[h] = b THEN Drop(@, {h}) ELSE @]
      back(x, tx) == Ev([Announce(x, tx) EXCEPT !.scan.txs = @ \cup {tx}], "tx", <<"reverted", tx>>)
  IN IF h \in DOMAIN s.conf THEN FoldLeft(back, [a EXCEPT !.conf = Drop(@, {h})], s.conf[h]) ELSE a

\* ---- the chain changes ----------------------------------------------------
Rollback(s, f) ==                               \* to height f
  IF f >= FH(s) THEN s
  ELSE LET a == [s EXCEPT !.fl = SubSeq(@, 1, f + 1), !.fb = SubSeq(@, 1, f + 1), !.scan.cache = K!Rollback(@, f), !.scan.rcv = Drop(@, {h \in DOMAIN @ : h > f})]
       IN IF a.scan.on /\ a.scan.cur > f + 1 THEN [a EXCEPT !.scan.cur = IF f + 1 > a.scan.start THEN f + 1 ELSE a.scan.start] ELSE a
Changed(s, old) ==
  LET rev == C!Reverted(old, Act(s))
      con == C!Connected(old, Act(s))
      a == FoldLeft(LAMBDA x, r : Ev([x EXCEPT !.pend = @ \ {r[1]}], "chain", <<"disconnected", r[1], r[2]>>), s, rev)
      b == Ev(FoldLeft(LAMBDA x, r : Ev(x, "chain", <<"connected", r[1], r[2]>>), a, con), "chain", <<"imported", H(s), Tip(s), rev, con>>)
      c == IF rev = <<>> THEN b ELSE LET x == Rollback(b, rev[Len(rev)][1] - 1) IN [x EXCEPT !.creq = Drop(@, {q \in DOMAIN @ : ~OnChain(x, q)})]
      behind == {p \in SyncPeers(c) : c.P[p].link = "in" /\ c.P[p].h < H(c)}
      d == CSync(FoldLeft(LAMBDA x, p : Owe(x, Duty("h", {p}, <<Tip(c)>>, 0, "", {"C13"})), c, SetToSeq(behind)))
  IN IF rev = <<>> THEN d ELSE Deliver(FoldLeft(LAMBDA x, r : Revert(x, r[1], r[2]), d, rev))
\* Import headers: the state after, and the position of the first one that was refused.
Import(s, b) == LET o == CHOOSE o \in C!ImportBatch(s.W.D, s.tr, b, s.W.now + s.t \div 1000) : TRUE
                    a == [s EXCEPT !.tr = o.s]
                IN [s |-> IF o.s.act = Act(s) THEN a ELSE Changed(a, Act(s)), at |-> o.at, changed |-> o.s.act # Act(s)]

InHeaders(s0, p, m) ==
  LET had == s0.P[p].get.on
      s == [s0 EXCEPT !.P[p].get = NoGet]
      last == m.b[Len(m.b)]
      root == m.b[1]
  IN IF m.n = 0 THEN s
     ELSE IF m.n > MaxHeaders THEN Misbehaved(s, p, {"C23"})
     ELSE IF m.n > MaxUnsol /\ ~had THEN s
     ELSE IF ~s.P[p].sync \/ OnChain(s, last) THEN s
     ELSE LET r == Import(s, m.b)
              n == r.s
          IN IF r.at # 0 THEN Misbehaved(n, p, {"C23"})
             ELSE IF r.changed
             THEN LET a == [n EXCEPT !.P[p].h = IF H(n) > @ THEN H(n) ELSE @, !.tipat = n.t]
                  IN IF m.n < MaxHeaders THEN Sync(a) ELSE Owe(a, Duty("gh", {p}, <<Tip(a)>>, -2, "drop", {"C23"}))
             ELSE IF \A x \in C!Range(n.W.D.path[root]) : Known(n, x)
             THEN IF m.n = MaxHeaders THEN Owe(n, Duty("gh", {p}, <<last>>, -2, "ignore", {"C23"})) ELSE n
             ELSE Owe(n, Duty("gh", {p}, <<>>, root, "ignore", {"C23"}))

InInv(s, p, m) ==
  LET new == SelectSeq(m.b, LAMBDA b : ~Known(s, b))
  IN IF Syncing(s) \/ ~s.P[p].sync \/ new = <<>> THEN s ELSE Owe(s, Duty("gh", {p}, <<>>, new[Len(new)], "retry", {"C23"}))

InCfHeaders(s0, p, m) ==
  IF m.stop \notin DOMAIN s0.creq THEN s0
  ELSE LET s == [s0 EXCEPT !.creq = Drop(@, {m.stop})]
           h == HeightOf(s, m.stop)
           n == Len(m.fids)
       IN IF m.type # 0 \/ ~OnChain(s, m.stop) THEN Misbehaved(s, p, {"C05"})
          ELSE IF h <= FH(s) THEN s
          ELSE IF m.prev # s.fl[Len(s.fl)][2] THEN [s EXCEPT !.cidle = Never]
          ELSE IF n = 0 \/ n > MaxCf \/ n # h - FH(s) THEN Misbehaved(s, p, {"C05"})
          ELSE LET a == [s EXCEPT !.fl = @ \o [j \in 1..n |-> <<m.fids[j], m.hids[j]>>], !.fb = @ \o [j \in 1..n |-> Act(s)[FH(s) + 1 + j]]]
                   lo == IF FH(s) > s.scan.cur THEN FH(s) ELSE s.scan.cur
                   hi == IF s.scan.end >= 0 /\ s.scan.end < h THEN s.scan.end ELSE h
                   b == IF s.scan.on THEN Get(a, lo, hi) ELSE a
               IN IF h = H(s) THEN b ELSE CSync(b)

InGetCfHeaders(s, p, m) ==
  IF m.type # 0 THEN Misbehaved(s, p, {"C05"})
  ELSE IF ~OnChain(s, m.stop) THEN s
  ELSE IF m.start > HeightOf(s, m.stop) THEN Misbehaved(s, p, {"C05"})
  ELSE IF HeightOf(s, m.stop) > FH(s) THEN s
  ELSE Owe(s, Duty("cfh", {p}, [stop |-> m.stop, prev |-> IF m.start = 0 THEN 0 ELSE s.fl[m.start][2],
                                fids |-> [j \in 1..(HeightOf(s, m.stop) - m.start + 1) |-> s.fl[m.start + j][1]]], 0, "", {"C05"}))

Upto(s) == IF s.pend = {} THEN [s EXCEPT !.upto = @ \cup {s.scan.cur}] ELSE s
InCfilter(s, p, m) ==
  IF m.type # 0 \/ ~OnChain(s, m.b) THEN s
  ELSE LET h == HeightOf(s, m.b) IN
  IF h > FH(s) THEN s
  ELSE IF s.fl[h + 1][1] # m.fid THEN Misbehaved(s, p, {"C06"})
  ELSE LET a == Ev(s, "recv", <<p, h, m.b, m.fid>>) IN
  IF h \notin s.scan.req THEN Upto(a)
  ELSE LET b == [a EXCEPT !.scan.req = @ \ {h}, !.scan.cache = K!Push(@, h, m.fid, s.W.flen[m.fid]),
                          !.scan.rcv = IF s.scan.on /\ h >= s.scan.cur THEN Put(@, h, <<m.fid, m.b>>) ELSE @]
           c == Scan(b, FALSE)
       IN Upto([c EXCEPT !.scan.lastp = IF c.scan.cur > b.scan.cur THEN s.t ELSE @])

InRescan(s, m) ==
  LET st0 == CASE m.fk = "inc" -> m.f [] m.fk = "exc" -> m.f + 1 [] OTHER -> H(s) + 1
      empty == m.tk = "exc" /\ m.t = 0
      st == IF empty /\ st0 < 1 THEN 1 ELSE st0
      en == CASE m.tk = "inc" -> m.t [] empty -> 0 [] m.tk = "exc" -> m.t - 1 [] OTHER -> -1
      a == Ev([s EXCEPT !.scan = [@ EXCEPT !.on = TRUE, !.start = st, !.cur = st, !.end = en, !.watch = m.watch, !.req = {}, !.rcv = <<>>]], "scan", <<"started", st, en>>)
      R == Remaining(a)
      b == IF R = {} THEN a ELSE IF CfPeers(s) = {} \/ m.watch = {} THEN Load(a, R) ELSE Get(a, Min(R), Max(R))
  IN Scan(b, TRUE)

InBlock(s, p, m) ==
  IF m.b \notin DOMAIN s.want THEN s
  ELSE IF ~m.ok THEN Misbehaved(s, p, {"C08"})
  ELSE LET a == [s EXCEPT !.want = Drop(@, {m.b})]
       IN Deliver(IF OnChain(s, m.b) THEN [a EXCEPT !.got = Put(@, HeightOf(s, m.b), m.b)] ELSE a)

InData(s, p, i) ==                       \* a peer asks for a transaction
  LET x == i[2]
      a == IF x \in s.mem THEN Owe(s, Duty("tx", {p}, x, 0, "", {"C09"})) ELSE s
  IN IF i[1] \notin {"tx", "wtx"} THEN s
     ELSE IF s.P[p].inv /\ x \in s.P[p].out THEN Ev([a EXCEPT !.P[p] = [@ EXCEPT !.out = @ \ {x}, !.att = 0, !.last = Never]], "tx", <<"ack", x, p>>) ELSE a

Again(n) == CASE n = 2 -> "again2" [] n = 1 -> "again1" [] OTHER -> "again0"
InTimer(s0) ==
  LET \* announcements
      s == [s0 EXCEPT !.conf = Drop(@, {h \in DOMAIN @ : H(s0) - h > PruneDepth})]
      due(x) == x.inv /\ x.out # {} /\ s.t - x.last >= Rebroadcast
      inv(x, p) == IF ~due(x.P[p]) THEN x
                   ELSE IF x.P[p].att >= MaxAttempts THEN Owe([x EXCEPT !.P[p].inv = FALSE], Duty("disc", {p}, 0, 0, "", {"C09"}))
                   ELSE Owe([x EXCEPT !.P[p].att = @ + 1, !.P[p].last = s.t], Duty("inv", {p}, x.P[p].out, 0, "", {"C09"}))
      a == FoldLeft(inv, s, SetToSeq(DOMAIN s.P))
      \* blocks
      blk(x, b) == IF NetPeers(x) = {} \/ s.t - x.want[b] < BlockTimeout THEN x
                   ELSE Owe([x EXCEPT !.want[b] = s.t], Duty("gd", NetPeers(x), b, 0, "", IF b >= 0 /\ Len(x.W.D.path[b]) - 1 \in x.pend THEN {"C08", "C07"} ELSE {"C08"}))
      b == FoldLeft(blk, a, SetToSeq(DOMAIN a.want))
      \* headers
      late == {p \in DOMAIN b.P : b.P[p].get.on /\ s.t - b.P[p].get.at >= GetTimeout}
      hard == {p \in late : b.P[p].get.how = "drop" \/ (b.P[p].get.how = "retry" /\ b.P[p].get.n = 0)}
      off(x, p) == [x EXCEPT !.P[p].get = NoGet, !.may = IF b.P[p].get.how = "any" THEN @ \cup {p} ELSE @]
      c == FoldLeft(off, b, SetToSeq(late))
      others(p) == {q \in SyncPeers(c) : q # p /\ c.P[q].link = "out" /\ ~c.P[q].get.on /\ c.P[q].asked # b.P[p].get.loc}
      again(x, p) == LET g == b.P[p].get IN
                     IF p \in hard THEN Misbehaved(x, p, {"C23"})
                     ELSE IF g.how = "retry" /\ Cardinality(late) = 1 /\ others(p) # {} THEN Owe(x, Duty("gh", others(p), g.loc, g.stop, Again(g.n - 1), {"C23"})) ELSE x
      d == FoldLeft(again, c, SetToSeq(late))
      e == IF hard # {} THEN Sync(d) ELSE IF s.t - s.sidle >= SyncIdle THEN [SyncOrAsk(d) EXCEPT !.sidle = s.t] ELSE d
      \* filter headers
      f == IF s.t - s.cidle >= CfIdle THEN [CSync(e) EXCEPT !.cidle = s.t] ELSE e
      old == {q \in DOMAIN f.creq : s.t >= f.creq[q].exp}
      g == IF CfPeers(f) = {} THEN f
           ELSE FoldLeft(LAMBDA x, q : Owe([x EXCEPT !.creq[q].exp = s.t + CfTimeout, !.may = IF CfPeers(f) = {x.creq[q].p} THEN @ ELSE @ \cup {x.creq[q].p}],
                                           Duty("gcfh", CfPeers(f), x.creq[q].start, q, "", {"C05"})), f, SetToSeq(old))
      \* filters
  IN IF g.scan.on /\ s.t - g.scan.lastp >= CfTimeout THEN Get([g EXCEPT !.scan.req = {}], g.scan.cur, Max(Remaining(g) \cup {-1})) ELSE g

InJoin(s, p, m) ==
  LET out == m.l = "out"
      r == [link |-> m.l, h |-> m.h, relay |-> m.relay, wtx |-> m.wtx, sync |-> ~(out /\ 1 \notin m.svc), cf |-> out /\ 64 \in m.svc, net |-> 1 \in m.svc, inv |-> TRUE,
            get |-> NoGet, asked |-> <<-9>>, out |-> IF m.relay THEN s.mem ELSE {}, att |-> 0, last |-> Never]
      a == [s EXCEPT !.P = Put(@, p, r)]
      b == IF r.cf THEN CSync(a) ELSE a
  IN IF r.sync THEN Sync(b) ELSE b

In(s, m) ==
  CASE m.k = "init" -> CSync([SyncOrAsk(s) EXCEPT !.sidle = s.t, !.cidle = s.t])
    [] m.k = "timer" -> InTimer(s)
    [] m.k = "join" -> InJoin(s, m.p, m)
    [] m.k = "rescan" -> InRescan(s, m)
    [] m.k = "watch" -> [s EXCEPT !.scan.watch = @ \cup m.watch]
    [] m.k = "reqblock" -> Want(s, m.b)
    [] m.k = "submit" -> [Announce([s EXCEPT !.scan.txs = @ \cup {m.tx}], m.tx) EXCEPT !.rep = <<{p \in DOMAIN s.P : s.P[p].inv /\ s.P[p].relay}>>]
    [] m.k = "import" -> LET r == Import(s, m.b) IN [r.s EXCEPT !.rep = <<{IF r.at # 0 THEN 2 ELSE IF r.changed THEN 1 ELSE 0}>>]
    [] m.k = "reqfilters" -> [Get(s, m.lo, m.hi) EXCEPT !.rep = <<{IF GetOk(s, m.lo, m.hi) THEN 1 ELSE 0}>>]
    [] m.p \notin DOMAIN s.P -> s
    [] m.k = "lost" -> [s EXCEPT !.P = Drop(@, {m.p})]
    [] m.k = "headers" -> InHeaders(s, m.p, m)
    [] m.k = "getheaders" ->
        LET ans == C!Locate(Act(s), m.loc, m.stop, MaxHeaders)
            a == [s EXCEPT !.ask = @ \cup {<<m.p, ans>>}]
        IN IF ans = <<>> \/ Syncing(s) THEN a ELSE Owe(a, Duty("h", {m.p}, ans, 0, "", {"C13"}))
    [] m.k = "inv" -> InInv(s, m.p, m)
    [] m.k = "cfheaders" -> InCfHeaders(s, m.p, m)
    [] m.k = "getcfheaders" -> InGetCfHeaders(s, m.p, m)
    [] m.k = "cfilter" -> InCfilter(s, m.p, m)
    [] m.k = "block" -> InBlock(s, m.p, m)
    [] m.k = "getdata" -> FoldLeft(LAMBDA x, i : InData(x, m.p, i), s, m.items)
    [] OTHER -> s

\* ---- outputs --------------------------------------------------------------
Duties(s, k, p) == {j \in DOMAIN s.must : s.must[j].k = k /\ p \in s.must[j].ps}
GoodLoc(s, loc) == C!GoodLocator(s.W.D, Act(s), H(s), loc)
OutGetHeaders(s, p, o) ==
  LET fits(d) == d.b = o.stop /\ (IF d.a = <<>> THEN GoodLoc(s, o.loc) ELSE d.a = o.loc)
      js == {j \in Duties(s, "gh", p) : fits(s.must[j])}
      d == s.must[Min(js)]
      how == IF js = {} THEN "ignore" ELSE CASE d.how \in {"sync", "ignore"} -> "ignore" [] d.how = "drop" -> "drop" [] OTHER -> "retry"
      n == IF js # {} /\ how = "retry" THEN CASE d.how = "retry" -> 3 [] d.how = "again2" -> 2 [] d.how = "again1" -> 1 [] OTHER -> 0 ELSE 0
      a == IF js = {} THEN s ELSE Pay(s, Min(js))
  IN IF p \notin DOMAIN s.P THEN Flag(s, {"C23"}, "headers requested from a stranger")
     ELSE FlagIf(FlagIf([a EXCEPT !.P[p].get = [on |-> TRUE, at |-> s.t, loc |-> o.loc, stop |-> o.stop, how |-> how, n |-> n], !.P[p].asked = o.loc],
                 s.P[p].get.on, {"C23"}, "second header request to a peer"),
                 o.loc # <<Tip(s)>> /\ js = {} /\ ~GoodLoc(s, o.loc) /\ ~(Len(o.loc) = 1), {"C13", "C23"}, "request with a wrong locator")
OutHeaders(s, p, o) ==
  LET js == {j \in Duties(s, "h", p) : s.must[j].a = o.b}
  IN IF js # {} THEN Pay(s, Min(js))
     ELSE FlagIf(s, ~(o.b = <<Tip(s)>> /\ p \in DOMAIN s.P /\ s.P[p].link = "in") /\ <<p, o.b>> \notin s.ask, {"C13"}, "headers sent that were not asked for")
OutGetCfHeaders(s, p, o) ==
  LET js == {j \in Duties(s, "gcfh", p) : s.must[j].a = o.start /\ s.must[j].b = o.stop}
  IN IF js # {} THEN [Pay(s, Min(js)) EXCEPT !.creq = IF o.stop \in DOMAIN @ THEN [@ EXCEPT ![o.stop].p = p] ELSE @]
     ELSE IF p \notin CfPeers(s) THEN Flag(s, {"C05"}, "filter headers requested from a peer that doesn't serve them")
     ELSE FlagIf([s EXCEPT !.creq = Put(@, o.stop, [start |-> o.start, p |-> p, exp |-> s.t + CfTimeout])],
                 ~(OnChain(s, o.stop) /\ o.start = FH(s) + 1 /\ HeightOf(s, o.stop) >= o.start), {"C05"}, "filter headers requested that are of no use")
OutGetCfilters(s, p, o) ==
  IF p \notin CfPeers(s) \cup s.gone THEN Flag(s, {"C07"}, "filters requested from a peer that doesn't serve them")
  ELSE IF ~OnChain(s, o.stop) \/ HeightOf(s, o.stop) > FH(s) \/ o.start > HeightOf(s, o.stop) THEN Flag(s, {"C07", "C06"}, "filters requested of no known header")
  ELSE LET S == o.start .. HeightOf(s, o.stop) IN [s EXCEPT !.askf = @ \ S, !.scan.req = @ \cup S]
OutData(s, p, i) ==
  LET js == {j \in Duties(s, "gd", p) : s.must[j].a = i[2]}
  IN IF i[1] # "block" THEN Flag(s, {"C08", "C09"}, "asked for something that isn't a block")
     ELSE IF js # {} THEN Pay(s, Min(js))
     ELSE FlagIf(s, i[2] \notin DOMAIN s.want, {"C08"}, "block requested that isn't wanted")
OutInv(s, p, o) ==
  LET xs == {o.items[j][2] : j \in DOMAIN o.items}
      js == {j \in Duties(s, "inv", p) : s.must[j].a = xs}
      tag == IF s.P[p].wtx THEN "wtx" ELSE "tx"
  IN IF js = {} THEN Flag(s, {"C09"}, "announcement that isn't due")
     ELSE FlagIf(Pay(s, Min(js)), \E j \in DOMAIN o.items : o.items[j][1] # tag, {"C09"}, "announced by the wrong kind of identifier")
OutTx(s, p, o) ==
  LET js == {j \in Duties(s, "tx", p) : s.must[j].a = o.tx} IN IF js # {} THEN Pay(s, Min(js)) ELSE Flag(s, {"C09"}, "transaction sent unasked")
OutCfHeaders(s, p, o) ==
  LET js == {j \in Duties(s, "cfh", p) : s.must[j].a = [stop |-> o.stop, prev |-> o.prev, fids |-> o.fids]}
  IN IF js # {} THEN Pay(s, Min(js)) ELSE Flag(s, {"C05"}, "filter headers sent that are wrong or not asked for")
OutDisc(s, p, o) ==
  LET js == Duties(s, "disc", p)
      a == IF js = {} THEN s ELSE Pay(s, Min(js))
      b == [a EXCEPT !.P = Drop(@, {p}), !.gone = @ \cup {p}]
  IN FlagIf(b, js = {} /\ p \notin s.may, IF o.r = "PeerMisbehaving" THEN {"C05", "C06", "C08", "C23"} ELSE {"C05", "C09", "C23"}, "disconnected without cause")

OutEvent(s, o) ==
  CASE o.e \in {"connected", "disconnected"} -> Seen(s, "chain", <<o.e, o.h, o.b>>)
    [] o.e = "imported" -> FlagIf(Seen(s, "chain", <<"imported", o.h, o.b, o.rev, o.con>>), o.reorg # (o.rev # <<>>), {"C03"}, "reorganisation reported that there isn't, or not")
    [] o.e = "synced" -> Seen(s, "sync", <<o.b, o.h>>)
    [] o.e = "freceived" -> Seen(s, "recv", <<o.p, o.h, o.b, o.fid>>)
    [] o.e = "fprocessed" -> Seen(s, "scan", <<"filter", o.h, o.b, o.m>>)
    [] o.e = "started" -> Seen(s, "scan", <<"started", o.h, o.stop>>)
    [] o.e = "stopped" -> Seen(s, "scan", <<"stopped", o.h>>)
    [] o.e = "scanned" -> FlagIf(s, o.h \notin s.upto, {"C07"}, "wrong scanned height reported")
    [] o.e = "fsynced" -> FlagIf(s, o.h # FH(s) \/ o.h # H(s), {"C05"}, "filter headers reported in sync, but are not")
    [] o.e = "processed" -> FlagIf(Seen(Seen(s, "blk", <<o.b, o.h>>), "fee", <<o.h, o.fees>>), ~o.ok, {"C08"}, "delivered block is not authentic")
    [] o.e = "matched" -> Seen(s, "match", <<o.b, o.h>>)
    [] o.e = "ack" -> Seen(s, "tx", <<"ack", o.tx, o.p>>)
    [] o.e = "confirmed" -> Seen(s, "tx", <<"confirmed", o.tx, o.b, o.h>>)
    [] o.e = "reverted" -> Seen(s, "tx", <<"reverted", o.tx>>)
    [] OTHER -> s
Out(s, o) ==
  CASE o.k = "ev" -> OutEvent(s, o)
    [] o.k = "disc" -> OutDisc(s, o.p, o)
    [] o.m = "getheaders" -> OutGetHeaders(s, o.p, o)
    [] o.m = "headers" -> OutHeaders(s, o.p, o)
    [] o.m = "getcfheaders" -> OutGetCfHeaders(s, o.p, o)
    [] o.m = "cfheaders" -> OutCfHeaders(s, o.p, o)
    [] o.m = "getcfilters" -> OutGetCfilters(s, o.p, o)
    [] o.m = "getdata" -> FoldLeft(LAMBDA x, i : OutData(x, o.p, i), s, o.items)
    [] o.m = "inv" -> OutInv(s, o.p, o)
    [] o.m = "tx" -> OutTx(s, o.p, o)

\* ---- after a turn ---------------------------------------------------------
What(d) == CASE d.k = "gh" -> "headers not requested" [] d.k = "gcfh" -> "filter headers not requested" [] d.k = "gd" -> "block not requested"
             [] d.k = "h" -> "headers not served" [] d.k = "cfh" -> "filter headers not served" [] d.k = "inv" -> "transactions not announced"
             [] d.k = "tx" -> "transaction not given" [] OTHER -> "not disconnected"
EvProp(k) == CASE k = "chain" -> {"C03"} [] k = "recv" -> {"C06"} [] k = "scan" -> {"C07"} [] k = "blk" -> {"C08"} [] k = "fee" -> {"C21"}
               [] k = "match" -> {"C07", "C08"} [] k = "sync" -> {"C23"} [] OTHER -> {"C09"}
EvText(k) == CASE k = "chain" -> "chain events" [] k = "recv" -> "filters received" [] k = "scan" -> "filters scanned" [] k = "blk" -> "blocks delivered" [] k = "fee" -> "fee estimates"
               [] k = "match" -> "matching blocks" [] k = "sync" -> "whether it is in sync" [] OTHER -> "status of transactions"
\* What was owed to a peer that is gone may have been lost.
Left(s) == SelectSeq(s.must, LAMBDA d : d.ps \cap s.gone = {})
Overdue(s) == {p \in DOMAIN s.P : s.P[p].get.on /\ s.t - s.P[p].get.at > GetTimeout}
End(s) ==
  LET rest == Left(s)
      wrong == {k \in DOMAIN s.ev : s.ev[k] # s.seen[k]}
  IN [s EXCEPT !.must = <<>>, !.askf = {}, !.may = {}, !.gone = {}, !.ask = {}, !.upto = {}, !.ev = NoEv, !.seen = NoEv, !.rep = <<>>,
       !.bad = @ \cup UNION {{<<q, What(rest[j])>> : q \in rest[j].w} : j \in DOMAIN rest}
                 \cup UNION {{<<q, EvText(k)>> : q \in EvProp(k)} : k \in wrong}
                 \cup (IF s.askf # {} /\ s.gone = {} THEN {<<"C07", "filters not requested">>} ELSE {})
                 \cup (IF Overdue(s) # {} THEN {<<"C23", "header request never given up">>} ELSE {})]
Turn(s, t, ins, outs) == FoldLeft(Out, FoldLeft(In, [s EXCEPT !.t = t], ins), outs)

\* With a single honest peer that has the best chain, everything gets in order.
Unsettled(s, p, tip) ==
  IF p \notin DOMAIN s.P THEN {<<"C23", "honest peer dropped">>, <<"C05", "honest peer dropped">>, <<"C06", "honest peer dropped">>, <<"C08", "honest peer dropped">>, <<"C09", "honest peer dropped">>} ELSE
  LET done == Tip(s) = tip           \* there may be another chain which is as good
      onit == done /\ \A b \in DOMAIN s.want : OnChain(s, b)
  IN (IF done \/ Len(Act(s)) >= Len(s.W.D.path[tip]) THEN {} ELSE {<<"C23", "best chain never fetched">>})
     \cup (IF done /\ FH(s) # H(s) THEN {<<"C05", "filter headers never fetched">>} ELSE {})
     \cup (IF done /\ FH(s) = H(s) /\ s.scan.on /\ Remaining(s) # {} THEN {<<"C07", "scan never finished">>} ELSE {})
     \cup (IF onit /\ s.want # <<>> THEN {<<"C08", "block never fetched">>} ELSE {})
     \cup (IF onit /\ s.want = <<>> /\ (s.got # <<>> \/ s.pend # {}) THEN {<<"C08", "blocks never delivered">>, <<"C07", "matches never delivered">>} ELSE {})
     \cup (IF s.P[p].out # {} THEN {<<"C09", "transactions never announced">>} ELSE {})
=============================================================================
