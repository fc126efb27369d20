--------------------------------- MODULE Bus ---------------------------------
(* The event bus (C20): subscriber k has read position pos[k] in the log.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
New == [log |-> <<>>, pos |-> <<>>]
Publish(s, es) == [s EXCEPT !.log = @ \o es]
Subscribe(s, k) == [s EXCEPT !.pos = (k :> Len(s.log)) @@ @]
Drop(s, k) == [s EXCEPT !.pos = [j \in DOMAIN s.pos \ {k} |-> s.pos[j]]]
Unread(s, k) == SubSeq(s.log, s.pos[k] + 1, Len(s.log))
Read(s, k, n) == [s EXCEPT !.pos[k] = @ + n]
=============================================================================
