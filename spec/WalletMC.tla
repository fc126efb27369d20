------------------------------- MODULE WalletMC -------------------------------
(* Every chain of up to N transactions over addresses 1 (ours), 2 (ours) and -1 *)
(* is scanned from its start, any number of times and interrupted anywhere.    *)
EXTENDS Wallet
CONSTANTS N, MaxOuts, MaxPasses
VARIABLES chain, s, pos, top, passes
vars == <<chain, s, pos, top, passes>>
Ours == {1, 2}
OutsOf(t) == {<<t, v>> : v \in 0 .. MaxOuts - 1}
Outs == UNION {[1 .. n -> {<<1, 1>>, <<2, 2>>, <<-1, 1>>}] : n \in 1 .. MaxOuts}
\* Inputs: outputs of earlier transactions not spent before, in one fixed order; at most two.
Prior(c) == {<<t, v>> \in (1 .. Len(c)) \X (0 .. MaxOuts - 1) : v < Len(c[t].outs) /\ \A u \in 1 .. Len(c) : <<t, v>> \notin Ins(c[u])}
InSeqs(c) == {<<>>} \cup {<<o>> : o \in Prior(c)} \cup {p \in Prior(c) \X Prior(c) : p[1][1] < p[2][1] \/ (p[1][1] = p[2][1] /\ p[1][2] < p[2][2])}
Init == chain = <<>> /\ s = Own(Own(New, 1, 0, ""), 2, 1, "") /\ pos = 0 /\ top = 0 /\ passes = 1
Mine == Len(chain) < N /\ \E o \in Outs, n \in InSeqs(chain) :
          chain' = Append(chain, [id |-> Len(chain) + 1, ins |-> n, outs |-> o]) /\ UNCHANGED <<s, pos, top, passes>>
Scan == pos < Len(chain) /\ s' = Apply(s, chain[pos + 1], Ours) /\ pos' = pos + 1 /\ top' = (IF pos + 1 > top THEN pos + 1 ELSE top) /\ UNCHANGED <<chain, passes>>
Again == passes < MaxPasses /\ pos > 0 /\ pos' = 0 /\ passes' = passes + 1 /\ UNCHANGED <<chain, s, top>>
Next == Mine \/ Scan \/ Again
Spec == Init /\ [][Next]_vars
Unspent(n) == {o \in UNION {OutsOf(t) : t \in 1 .. n} :
                 o[2] < Len(chain[o[1]].outs) /\ chain[o[1]].outs[o[2] + 1][1] \in Ours /\ \A u \in 1 .. n : o \notin Ins(chain[u])}
\* Whenever a pass is as far as any pass was, the coins are those of the chain so far and the balance their sum.
Exact == pos = top => /\ DOMAIN s.coins = Unspent(pos)
                      /\ Balance(s) = MapThenSumSet(LAMBDA o : chain[o[1]].outs[o[2] + 1][2], Unspent(pos))
UsedOk == \A a \in Ours : s.addrs[a].used <=> \E t \in 1 .. top : \E k \in DOMAIN chain[t].outs : chain[t].outs[k][1] = a
\* In the middle of a repeated pass, a coin can only be one that the chain so far had at some point.
Sane == \A o \in DOMAIN s.coins : o[1] <= top /\ s.coins[o] = chain[o[1]].outs[o[2] + 1]
===============================================================================
