------------------------------- MODULE Stream -------------------------------
(* Framing (C17): a stream of messages, cut anywhere, decodes to itself.     *)
(* A message is given by its length and whether it is a message at all.      *)
EXTENDS Integers, Sequences
RECURSIVE Sum(_, _)
Sum(q, k) == IF k = 0 THEN 0 ELSE q[k] + Sum(q, k - 1)
New(lens, ok) == [lens |-> lens, ok |-> ok, fed |-> 0, got |-> 0]
Feed(s, n) == [s EXCEPT !.fed = s.fed + n]
\* The last message that can be decoded now.
Last(s) == CHOOSE k \in s.got..Len(s.lens) :
             /\ \A j \in (s.got + 1)..k : s.ok[j] /\ Sum(s.lens, j) <= s.fed
             /\ k = Len(s.lens) \/ ~s.ok[k + 1] \/ Sum(s.lens, k + 1) > s.fed
Drain(s) == [s EXCEPT !.got = Last(s)]
\* Once a malformed message is complete it must have been reported; before its first byte it cannot be.
MustErr(s) == s.got < Len(s.lens) /\ ~s.ok[s.got + 1] /\ Sum(s.lens, s.got + 1) <= s.fed
MayErr(s)  == s.got < Len(s.lens) /\ ~s.ok[s.got + 1] /\ Sum(s.lens, s.got) < s.fed
=============================================================================
