------------------------------- MODULE StoreMC -------------------------------
(* Byte-level model of the file against the entry-level one: the file is the *)
(* concatenation of the entries' bytes; a crash cuts a write at any byte.     *)
EXTENDS Store, TLC
CONSTANTS Size, MaxId, MaxBatch
VARIABLES s, file, nxt
vars == <<s, file, nxt>>
BytesOf(id) == [k \in 1..Size |-> <<id, k>>]
RECURSIVE Enc(_)
Enc(ids) == IF ids = <<>> THEN <<>> ELSE BytesOf(Head(ids)) \o Enc(Tail(ids))
Init == s = New(Size) /\ file = <<>> /\ nxt = 1
Fresh(n) == [k \in 1..n |-> nxt + k - 1]
Next ==
  \/ \E n \in 0..MaxBatch : /\ nxt + n <= MaxId + 1 /\ Clean(s)
        /\ s' = Put(s, Fresh(n)) /\ file' = file \o Enc(Fresh(n)) /\ nxt' = nxt + n
  \/ \E n \in 1..MaxBatch : \E b \in 0..(n * Size - 1) :
        /\ nxt + n <= MaxId + 1 /\ Clean(s)
        /\ s' = Cut(s, Fresh(n), b) /\ file' = file \o SubSeq(Enc(Fresh(n)), 1, b) /\ nxt' = nxt + n
  \/ \E h \in 0..Height(s) : Clean(s) /\ s' = Rollback(s, h) /\ file' = SubSeq(file, 1, h * Size) /\ UNCHANGED nxt
  \/ s' = Heal(s) /\ file' = SubSeq(file, 1, Len(file) - (Len(file) % Size)) /\ UNCHANGED nxt
Spec == Init /\ [][Next]_vars
\* What a reader makes of the file.
Decoded == [k \in 1..(Len(file) \div Size) |-> SubSeq(file, (k - 1) * Size + 1, k * Size)]
Faithful == Decoded = [k \in 1..Height(s) |-> BytesOf(s.ent[k + 1])] /\ Len(file) % Size = s.tail
Ascending == \A k \in 1..(Len(s.ent) - 1) : s.ent[k] < s.ent[k + 1]
Healed == Clean(Heal(s)) /\ Heal(s).ent = s.ent
=============================================================================
