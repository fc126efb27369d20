------------------------------ MODULE TimersMC ------------------------------
EXTENDS Timers, TLC
CONSTANTS Keys, Times, Thresholds
VARIABLES th, out, now, asked, fired
vars == <<th, out, now, asked, fired>>
Init == th \in Thresholds /\ out = {} /\ now = 0 /\ asked = {} /\ fired = {}
Reg(k, t) == /\ k \notin {x[1] : x \in asked} /\ t >= now
             /\ asked' = asked \cup {<<k, t>>} /\ out' = Register(out, th, k, t) /\ UNCHANGED <<th, now, fired>>
Poll(t) == /\ t > now /\ now' = t /\ out' = Wake(out, t)
           /\ fired' = fired \cup {<<x[1], x[2], t>> : x \in Due(out, t)} /\ UNCHANGED <<th, asked>>
Next == \/ \E k \in Keys, t \in Times : Reg(k, t)
        \/ \E t \in Times : Poll(t)
        \/ Poll(now + Wait(out, now))          \* sleeping exactly as long as told
Spec == Init /\ [][Next]_vars
NeverEarly == \A f \in fired : f[3] >= f[2]
Once == \A f, g \in fired : f[1] = g[1] => f = g
NoneLate == \A x \in out : x[2] > now \/ x[2] >= now
\* Every request either fired, is outstanding, or was merged into one less than the threshold away.
NotLost == \A a \in asked : \/ a \in out \/ \E f \in fired : <<f[1], f[2]>> = a
                            \/ \E b \in asked \ {a} : Dist(a[2], b[2]) < th /\ (b \in out \/ \E f \in fired : <<f[1], f[2]>> = b)
Spaced == \A x, y \in out : x # y => Dist(x[2], y[2]) >= th
WaitOk == out # {} => now + Wait(out, now) <= Earliest(out) \/ Earliest(out) <= now
=============================================================================
