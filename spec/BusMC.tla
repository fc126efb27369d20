-------------------------------- MODULE BusMC --------------------------------
EXTENDS Bus
CONSTANTS Subs, MaxLog
VARIABLES s, from, got
vars == <<s, from, got>>
\* from[k]: log length at subscription; got[k]: everything read so far.
Init == s = New /\ from = <<>> /\ got = <<>>
Pub == Len(s.log) < MaxLog /\ s' = Publish(s, <<Len(s.log) + 1>>) /\ UNCHANGED <<from, got>>
Sub(k) == k \notin DOMAIN from /\ s' = Subscribe(s, k) /\ from' = (k :> Len(s.log)) @@ from /\ got' = (k :> <<>>) @@ got
Drp(k) == k \in DOMAIN s.pos /\ s' = Drop(s, k) /\ UNCHANGED <<from, got>>
Rd(k) == /\ k \in DOMAIN s.pos
         /\ \E n \in 0..Len(Unread(s, k)) : s' = Read(s, k, n) /\ got' = [got EXCEPT ![k] = @ \o SubSeq(Unread(s, k), 1, n)]
         /\ UNCHANGED from
Next == Pub \/ \E k \in Subs : Sub(k) \/ Drp(k) \/ Rd(k)
Spec == Init /\ [][Next]_vars
Exact == \A k \in DOMAIN got : got[k] = [j \in 1..Len(got[k]) |-> from[k] + j]
Complete == \A k \in DOMAIN s.pos : got[k] \o Unread(s, k) = SubSeq(s.log, from[k] + 1, Len(s.log))
=============================================================================
