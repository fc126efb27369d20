------------------------------- MODULE Clock -------------------------------
(* Network-adjusted time (C15): local time plus a bounded median of offsets. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MinSamples, MaxSources, MaxAdjust

Abs(x) == IF x < 0 THEN -x ELSE x
\* The samples are kept sorted; one sample of zero is there from the start.
New == [src |-> {}, smp |-> <<0>>, off |-> 0]

Insert(q, v) == LET k == Cardinality({j \in DOMAIN q : q[j] <= v})
                IN SubSeq(q, 1, k) \o <<v>> \o SubSeq(q, k + 1, Len(q))
Median(q) == q[(Len(q) + 1) \div 2]           \* of an odd number of samples

Record(c, k, v) ==
  IF k \in c.src \/ Cardinality(c.src) >= MaxSources THEN c
  ELSE LET q == Insert(c.smp, v)
           m == Median(q)
       IN [src |-> c.src \cup {k}, smp |-> q,
           off |-> IF Len(q) < MinSamples \/ Len(q) % 2 = 0 THEN c.off
                   ELSE IF Abs(m) <= MaxAdjust THEN m ELSE 0]
Adjusted(c, t) == t + c.off
=============================================================================
