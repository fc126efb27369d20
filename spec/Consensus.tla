------------------------------ MODULE Consensus ------------------------------
(***************************************************************************)
(* Header validity rules, as a function of a world W of block headers.     *)
(* Headers are numbered 1..W.n, genesis is 0, an unknown parent is -1.     *)
(* Targets are in units of 2^224, times are relative to genesis.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Par(W, h)  == IF h = 0 THEN -1 ELSE W.par[h]
Tm(W, h)   == IF h = 0 THEN 0 ELSE W.tm[h]
Bits(W, h) == IF h = 0 THEN W.gbits ELSE W.bits[h]
Work(W, h) == IF h = 0 THEN W.gwork ELSE W.work[h]
Rank(W, h) == IF h = 0 THEN W.grank ELSE W.rank[h]
Ids(W)     == 1 .. W.n

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

\* Path from genesis to h (h included); <<>> when h does not descend from genesis.
RECURSIVE Path(_, _)
Path(W, h) == IF h = 0 THEN <<0>>
              ELSE IF h < 0 THEN <<>>
              ELSE LET p == Path(W, Par(W, h))
                   IN IF p = <<>> THEN <<>> ELSE Append(p, h)

\* Median of a sequence of integers (upper median, as for an even number of samples).
Median(s) ==
  LET n == Len(s)
      k == n \div 2
  IN CHOOSE v \in {s[i] : i \in 1..n} :
        /\ Cardinality({i \in 1..n : s[i] < v}) <= k
        /\ Cardinality({i \in 1..n : s[i] <= v}) > k

\* Median time of the (at most) eleven blocks ending with the last of path p.
MedianTimePast(W, p) ==
  LET n == Len(p)
      m == Min(11, n)
  IN Median([i \in 1..m |-> Tm(W, p[n - m + i])])

\* Compact encoding keeps 23 bits of precision.
Compact(u) == IF u > 8388607 THEN (u \div 256) * 256 ELSE u

\* Required target of a block with time t whose parent is the last block of path p.
RECURSIVE LastReal(_, _, _)
LastReal(W, p, i) ==
  IF i < 1 THEN W.limbits
  ELSE IF Bits(W, p[i]) # W.limbits \/ (i - 1) % W.interval = 0 THEN Bits(W, p[i])
  ELSE LastReal(W, p, i - 1)

RequiredTarget(W, p, t) ==
  LET h    == Len(p)             \* height of the new block
      last == p[Len(p)]
      span == W.spacing * W.interval
  IN IF h % W.interval # 0
     THEN IF ~W.mindiff THEN Bits(W, last)
          ELSE IF t > Tm(W, last) + 2 * W.spacing THEN W.limbits
          ELSE LastReal(W, p, Len(p))
     ELSE LET first  == p[h - W.interval + 1]
              actual == Tm(W, last) - Tm(W, first)
              clamp  == Min(Max(actual, span \div 4), span * 4)
          IN IF W.noret THEN Bits(W, first)
             ELSE Compact(Min((Bits(W, last) * clamp) \div span, W.limit))

Checkpoint(W, ht) == {c[2] : c \in {W.cp[i] : i \in {j \in DOMAIN W.cp : W.cp[j][1] = ht}}}

\* Rules that depend on the ancestry only.
StaticValid(W, h, p) ==     \* p = path of the parent
  /\ W.pow[h]
  /\ W.bits[h] = RequiredTarget(W, p, W.tm[h])
  /\ W.tm[h] > MedianTimePast(W, p)
  /\ Checkpoint(W, Len(p)) \subseteq {h}

\* Cheap check made on any header before it is remembered.
PreValid(W, h) == W.pow[h] /\ W.bits[h] <= W.limit

FutureLimit == 7200
NotFuture(W, h, now) == Tm(W, h) <= now + FutureLimit

\* What chain selection needs to know of a world.
Derive(W) ==
  LET P   == [h \in Ids(W) \cup {0} |-> Path(W, h)]
      RECURSIVE Cw(_)
      Cw(h) == IF h = 0 THEN Work(W, 0) ELSE Work(W, h) + Cw(Par(W, h))
      V   == [h \in Ids(W) |-> IF P[h] = <<>> THEN FALSE
                               ELSE StaticValid(W, h, SubSeq(P[h], 1, Len(P[h]) - 1))]
  IN [ path |-> P,
       cw   |-> [h \in Ids(W) \cup {0} |-> IF P[h] = <<>> THEN 0 ELSE Cw(h)],
       val  |-> V,
       pre  |-> [h \in Ids(W) |-> PreValid(W, h)],
       par  |-> [h \in Ids(W) \cup {0} |-> Par(W, h)],
       tm   |-> [h \in Ids(W) \cup {0} |-> Tm(W, h)],
       rank |-> [h \in Ids(W) \cup {0} |-> Rank(W, h)],
       cph  |-> {W.cp[i][1] : i \in DOMAIN W.cp},
       main |-> W.main ]
=============================================================================
