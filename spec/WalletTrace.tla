---- MODULE WalletTrace ----
(* Validates recorded runs of the real wallet against Wallet. *)
EXTENDS TraceBase
W == INSTANCE Wallet
S0 == W!New
Step(s, l) == CASE l.op = "reset" -> W!New
               [] l.op = "address" -> W!Own(s, l.a, l.ix, l.label)
               [] l.op = "apply" -> W!Apply(s, l.tx, Rng(l.w))
               [] l.op = "session" -> W!ApplyBlocks(s, l.blocks, DOMAIN s.addrs)
               [] l.op = "locked" -> IF l.res = "ok" THEN W!Apply(s, l.tx, Rng(l.w)) ELSE s
               [] OTHER -> s
Coins(n) == {<<o[1], o[2], n.coins[o][1], n.coins[o][2]>> : o \in DOMAIN n.coins}
Fails(s, l) == IF l.op = "reset" THEN {} ELSE
  LET n == Step(s, l) IN
  (IF l.op \in {"apply", "session"} THEN Lab(l.res = "ok", "the wallet fails") ELSE {})
  \cup (IF l.op = "address" THEN Lab(l.res, "address not stored") ELSE {})
  \cup Lab(Rng(l.coins) = Coins(n) /\ Len(l.coins) = Cardinality(Coins(n)), "unspent outputs wrong")
  \cup Lab(l.hasgot => (Rng(l.got) = Coins(n) /\ Len(l.got) = Len(l.coins)), "lookup of an output wrong")
  \cup Lab(l.bal = W!Balance(n) /\ l.own = l.bal, "balance wrong")
  \cup Lab({x.a : x \in Rng(l.addrs)} = DOMAIN n.addrs /\ Len(l.addrs) = Cardinality(DOMAIN n.addrs)
           /\ \A x \in Rng(l.addrs) : x.ix = n.addrs[x.a].ix /\ x.label = n.addrs[x.a].label, "addresses wrong")
  \cup Lab(\A x \in Rng(l.addrs) : x.a \in DOMAIN n.addrs => x.used = n.addrs[x.a].used, "address wrongly marked used or unused")
  \cup (IF l.op # "session" THEN {} ELSE
         Lab(IF l.offline THEN l.scans = <<>>
             ELSE Len(l.scans) = 1 /\ l.scans[1].from = l.birth /\ l.scans[1].open /\ Rng(l.scans[1].w) = DOMAIN s.addrs, "scan asked for is wrong")
         \cup Lab(l.shown \in {-1, W!Balance(n)}, "balance shown is wrong"))

VARIABLES i, s, bad
vars == <<i, s, bad>>
L == Trace[i]
Init == i = 1 /\ s = S0 /\ bad = {}
Next == /\ i <= Len(Trace) /\ bad = {}
        /\ i' = i + 1
        /\ bad' = Fails(s, L)
        /\ s' = IF bad' = {} THEN Step(s, L) ELSE s
Spec == Init /\ [][Next]_vars
Ok == bad = {} \/ PrintT(<<"FAIL", i - 1, bad>>)
====
