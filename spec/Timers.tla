------------------------------- MODULE Timers -------------------------------
(* Wake-ups (C16). A wake-up closer than the threshold to an outstanding one *)
(* is merged into it; every other one fires once, in order, never early.     *)
EXTENDS Integers, Sequences, FiniteSets
Dist(a, b) == IF a > b THEN a - b ELSE b - a
Accepts(out, th, t) == \A x \in out : Dist(x[2], t) >= th
Register(out, th, k, t) == IF Accepts(out, th, t) THEN out \cup {<<k, t>>} ELSE out
Due(out, now) == {x \in out : x[2] <= now}
Wake(out, now) == out \ Due(out, now)
Earliest(out) == CHOOSE t \in {x[2] : x \in out} : \A x \in out : t <= x[2]
Wait(out, now) == IF out = {} THEN -1 ELSE IF Earliest(out) > now THEN Earliest(out) - now ELSE 0
=============================================================================
