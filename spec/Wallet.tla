-------------------------------- MODULE Wallet --------------------------------
(* The wallet's coins, addresses and balance (C19).                            *)
(* A transaction: [id, ins: seq of <<tx, output>>, outs: seq of <<address,     *)
(* value>>]; outputs are numbered from 0. Address -1 is nobody's.              *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
New == [coins |-> <<>>, addrs |-> <<>>]        \* <<tx, output>> -> <<address, value>>; address -> [ix, label, used]
Ins(tx)      == {tx.ins[k] : k \in DOMAIN tx.ins}
Paid(tx, w)  == {k \in DOMAIN tx.outs : tx.outs[k][1] \in w}
Gain(tx, w)  == [o \in {<<tx.id, k - 1>> : k \in Paid(tx, w)} |-> tx.outs[o[2] + 1]]
Without(c, O) == [o \in DOMAIN c \ O |-> c[o]]
\* Outputs to watched addresses become coins, spent coins go, and addresses paid to are used.
Apply(s, tx, w) == [coins |-> Without(Gain(tx, w) @@ s.coins, Ins(tx)),
                    addrs |-> [a \in DOMAIN s.addrs |-> [s.addrs[a] EXCEPT !.used = @ \/ \E k \in Paid(tx, w) : tx.outs[k][1] = a]]]
RECURSIVE ApplyAll(_, _, _)
ApplyAll(s, txs, w) == IF txs = <<>> THEN s ELSE ApplyAll(Apply(s, Head(txs), w), Tail(txs), w)
RECURSIVE ApplyBlocks(_, _, _)
ApplyBlocks(s, bs, w) == IF bs = <<>> THEN s ELSE ApplyBlocks(ApplyAll(s, Head(bs), w), Tail(bs), w)
\* An address of ours; adding it again changes its label only.
Own(s, a, ix, label) == [s EXCEPT !.addrs = IF a \in DOMAIN @ THEN [@ EXCEPT ![a].label = label]
                                            ELSE (a :> [ix |-> ix, label |-> label, used |-> FALSE]) @@ @]
Balance(s) == MapThenSumSet(LAMBDA o : s.coins[o][2], DOMAIN s.coins)
===============================================================================
