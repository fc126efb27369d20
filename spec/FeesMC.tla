------------------------------- MODULE FeesMC -------------------------------
(* Every history of processing and rolling back blocks of a small block tree *)
(* leaves the estimator as if it had only seen the blocks now on its chain.  *)
EXTENDS Fees
CONSTANTS MaxOps
VARIABLES s, seen, n
vars == <<s, seen, n>>
\* Two coinbase outputs, and transactions spending them or each other.
Tx(i) == CASE i = 1 -> [id |-> 1, cb |-> TRUE,  ins |-> <<>>, outs |-> <<50, 40>>, w |-> 4]
           [] i = 2 -> [id |-> 2, cb |-> FALSE, ins |-> <<<<1, 0>>>>, outs |-> <<30>>, w |-> 4]
           [] i = 3 -> [id |-> 3, cb |-> FALSE, ins |-> <<<<1, 1>>, <<2, 0>>>>, outs |-> <<5>>, w |-> 8]
           [] i = 4 -> [id |-> 4, cb |-> FALSE, ins |-> <<<<9, 0>>>>, outs |-> <<7, 8>>, w |-> 8]
           [] i = 5 -> [id |-> 5, cb |-> FALSE, ins |-> <<<<4, 1>>>>, outs |-> <<1>>, w |-> 6]
Blocks == {<<1>>, <<2>>, <<1, 2>>, <<3>>, <<2, 3>>, <<4>>, <<4, 5>>, <<5>>, <<>>}
Txs(b) == [k \in DOMAIN b |-> Tx(b[k])]
NoDouble(b) == \A x \in {seen[j].b : j \in DOMAIN seen} : \A k \in DOMAIN b : \A j \in DOMAIN x : b[k] # x[j]
Init == s = New /\ seen = <<>> /\ n = 0
Add(h, b) == /\ NoDouble(b) /\ s' = Process(s, h, Txs(b))
             /\ seen' = IF Accepts(s, h) THEN Append(seen, [h |-> h, b |-> b]) ELSE seen
Back(h) == s' = Rollback(s, h) /\ seen' = SelectSeq(seen, LAMBDA x : x.h <= h)
Next == n < MaxOps /\ n' = n + 1 /\ \E h \in 0..4 : Back(h) \/ \E b \in Blocks : h > 0 /\ Add(h, b)
Spec == Init /\ [][Next]_vars
RECURSIVE Replay(_, _)
Replay(t, q) == IF q = <<>> THEN t ELSE Replay(Process(t, Head(q).h, Txs(Head(q).b)), Tail(q))
AsIfFresh == s = Replay(New, seen)
Ordered == \A b \in Blocks : LET e == Result(s, 9, Txs(b)) IN e # <<>> => e[1] <= e[2] /\ e[2] <= e[3]
=============================================================================
