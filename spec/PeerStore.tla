----------------------------- MODULE PeerStore -----------------------------
(* The peer address store (C18): a map in memory and its flushed copy.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
New == [mem |-> <<>>, disk |-> <<>>]
Has(s, ip) == ip \in DOMAIN s.mem
Insert(s, ip, v) == IF Has(s, ip) THEN s ELSE [s EXCEPT !.mem = (ip :> v) @@ @]
Update(s, ip, v) == IF Has(s, ip) THEN [s EXCEPT !.mem = (ip :> v) @@ @] ELSE s
Remove(s, ip) == [s EXCEPT !.mem = [k \in DOMAIN s.mem \ {ip} |-> s.mem[k]]]
Clear(s) == [s EXCEPT !.mem = <<>>]
Flush(s) == [s EXCEPT !.disk = s.mem]
Reopen(s) == [s EXCEPT !.mem = s.disk]
=============================================================================
