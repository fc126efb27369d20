-------------------------------- MODULE Fees --------------------------------
(* Fee estimates (C21). A node's knowledge is the list of blocks it          *)
(* processed; the outputs known to it follow from that list alone.           *)
(* tx: [id, cb, ins: seq of <<tx, n>>, outs: seq of values, w: weight]       *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

New == [blocks |-> <<>>]                     \* seq of [h, utxo after it]
Height(s) == IF s.blocks = <<>> THEN 0 ELSE s.blocks[Len(s.blocks)].h
Utxo(s) == IF s.blocks = <<>> THEN <<>> ELSE s.blocks[Len(s.blocks)].u

Outs(tx) == [p \in {<<tx.id, n - 1>> : n \in DOMAIN tx.outs} |-> tx.outs[p[2] + 1]]
SumSeq(q) == FoldSeq(LAMBDA a, b : a + b, 0, q)
\* rounded half up: fee / (weight / 4)
Rate(fee, w) == (8 * fee + w) \div (2 * w)
Ins(tx) == {tx.ins[k] : k \in DOMAIN tx.ins}

RECURSIVE Apply(_, _, _)
Apply(u, txs, fees) ==      \* <<utxo, fees>> after the transactions, in order
  IF txs = <<>> THEN <<u, fees>>
  ELSE LET tx == Head(txs)
           u1 == Outs(tx) @@ u
       IN IF tx.cb THEN Apply(u1, Tail(txs), fees)
          ELSE LET known == Ins(tx) \cap DOMAIN u1
                   u2 == [p \in DOMAIN u1 \ known |-> u1[p]]
                   fee == MapThenSumSet(LAMBDA p : u1[p], known) - SumSeq(tx.outs)
               IN Apply(u2, Tail(txs), IF known = Ins(tx) THEN Append(fees, Rate(fee, tx.w)) ELSE fees)

Estimate(fees) ==
  IF fees = <<>> THEN <<>>
  ELSE LET q == SortSeq(fees, <) n == Len(q)
           med == IF n % 2 = 1 THEN q[(n + 1) \div 2] ELSE (q[n \div 2] + q[n \div 2 + 1] + 1) \div 2
       IN <<q[1], med, q[n]>>

Accepts(s, h) == h > Height(s)
Process(s, h, txs) == IF ~Accepts(s, h) THEN s ELSE [s EXCEPT !.blocks = Append(@, [h |-> h, u |-> Apply(Utxo(s), txs, <<>>)[1]])]
Result(s, h, txs) == IF ~Accepts(s, h) THEN <<>> ELSE Estimate(Apply(Utxo(s), txs, <<>>)[2])
Rollback(s, h) == [s EXCEPT !.blocks = SelectSeq(@, LAMBDA b : b.h <= h)]
=============================================================================
