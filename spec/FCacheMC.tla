------------------------------ MODULE FCacheMC ------------------------------
EXTENDS FCache
CONSTANTS Heights, Sizes, Caps
VARIABLES s, last
vars == <<s, last>>
Init == (\E c \in Caps : s = New(c)) /\ last = <<>>
Next == \/ \E h \in Heights, n \in Sizes : s' = Push(s, h, n, n) /\ last' = IF Fits(s, n) THEN (h :> n) @@ last ELSE last
        \/ \E h \in Heights : s' = Rollback(s, h) /\ UNCHANGED last
Spec == Init /\ [][Next]_vars
Bounded == Bytes(s.held) <= s.cap
OnlyStored == \A h \in DOMAIN s.held : last[h] = s.held[h][1]
\* Pushing ascending heights keeps a window: what is evicted is below everything kept.
LowestFirst == [][\A h \in DOMAIN s.held \ DOMAIN s'.held :
                    (\A k \in DOMAIN s'.held : h < k) \/ (\A k \in DOMAIN s'.held : k < h)]_vars
=============================================================================
