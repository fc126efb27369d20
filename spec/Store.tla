-------------------------------- MODULE Store --------------------------------
(* A header store (C04): complete entries (the first is the genesis, which is *)
(* not in the file) and the bytes of an entry whose write was cut short.      *)
EXTENDS Integers, Sequences
New(size) == [size |-> size, ent |-> <<0>>, tail |-> 0]
Clean(s) == s.tail = 0
Put(s, ids) == [s EXCEPT !.ent = @ \o ids]
Rollback(s, h) == [s EXCEPT !.ent = SubSeq(@, 1, h + 1)]
\* The first `bytes` bytes of the entries reached the file.
Cut(s, ids, bytes) == [s EXCEPT !.ent = @ \o SubSeq(ids, 1, bytes \div s.size), !.tail = bytes % s.size]
Heal(s) == [s EXCEPT !.tail = 0]
Height(s) == Len(s.ent) - 1
=============================================================================
