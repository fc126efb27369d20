------------------------------ MODULE StreamMC ------------------------------
EXTENDS Stream, TLC
CONSTANTS MaxMsgs, MaxLen
VARIABLES s, err, out
vars == <<s, err, out>>
Seqs(S, n) == UNION {[1..k -> S] : k \in 1..n}
Init == /\ err = FALSE /\ out = <<>>
        /\ \E ls \in Seqs(1..MaxLen, MaxMsgs) : \E ok \in [1..Len(ls) -> BOOLEAN] : s = New(ls, ok)
Next == /\ ~err
        /\ \E n \in 0..(Sum(s.lens, Len(s.lens)) - s.fed), eager \in BOOLEAN :
             LET f == Feed(s, n) d == Drain(f) IN
             IF eager THEN /\ s' = d /\ out' = out \o [k \in 1..(d.got - f.got) |-> f.got + k]
                           /\ err' \in {MustErr(d), MustErr(d) \/ MayErr(d)}
             ELSE s' = f /\ UNCHANGED <<err, out>>
Spec == Init /\ [][Next]_vars
InOrder == \A k \in DOMAIN out : out[k] = k
OnlyComplete == \A k \in DOMAIN out : Sum(s.lens, out[k]) <= s.fed /\ s.ok[out[k]]
ErrOnlyIfBad == err => \E k \in DOMAIN s.lens : ~s.ok[k]
NothingLost == (s.fed = Sum(s.lens, Len(s.lens)) /\ Drain(s) = s /\ \A k \in DOMAIN s.ok : s.ok[k]) => s.got = Len(s.lens)
=============================================================================
