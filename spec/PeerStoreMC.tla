---------------------------- MODULE PeerStoreMC ----------------------------
EXTENDS PeerStore
CONSTANTS Ips, Vals
VARIABLES s, flushed
vars == <<s, flushed>>
Init == s = New /\ flushed = <<>>
Next == \/ \E ip \in Ips, v \in Vals : s' \in {Insert(s, ip, v), Update(s, ip, v)} /\ UNCHANGED flushed
        \/ \E ip \in Ips : s' = Remove(s, ip) /\ UNCHANGED flushed
        \/ s' \in {Clear(s), Reopen(s)} /\ UNCHANGED flushed
        \/ s' = Flush(s) /\ flushed' = s.mem
Spec == Init /\ [][Next]_vars
Durable == Reopen(s).mem = flushed
NoOverwrite == [][\A ip \in DOMAIN s.mem : \A v \in Vals : Insert(s, ip, v) = s]_vars
=============================================================================
