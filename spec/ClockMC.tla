------------------------------ MODULE ClockMC ------------------------------
(* All sample sequences over few sources and values; source 0 is dishonest.  *)
EXTENDS Clock, TLC
CONSTANTS Sources
Values == {-3, -2, 0, 1, 3}
VARIABLES c, n
vars == <<c, n>>
Init == c = New /\ n = 0
Next == \E k \in Sources, v \in Values : c' = Record(c, k, v) /\ n' = n + 1 /\ n < 9
Spec == Init /\ [][Next]_vars
Bounded   == Abs(c.off) <= MaxAdjust
NotEarly  == Cardinality(c.src) + 1 < MinSamples => c.off = 0
OneEach   == Len(c.smp) = Cardinality(c.src) + 1 /\ Cardinality(c.src) <= MaxSources
Sorted    == \A k \in 1..(Len(c.smp) - 1) : c.smp[k] <= c.smp[k + 1]
FromASample == c.off = 0 \/ \E k \in DOMAIN c.smp : c.smp[k] = c.off
\* Values outside [lo, hi] reported by a minority never become the offset.
Majority == \A v \in Values : LET far == {k \in DOMAIN c.smp : c.smp[k] >= v}
            IN (v > 0 /\ 2 * Cardinality(far) <= Len(c.smp) - 2) => c.off < v
RepeatsInert == [][\A k \in c.src, v \in Values : Record(c, k, v) = c]_vars
=============================================================================
