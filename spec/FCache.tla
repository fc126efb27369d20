------------------------------- MODULE FCache -------------------------------
(* The cache of recent filters (C24). held: height -> <<filter, bytes>>.     *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
New(cap) == [cap |-> cap, held |-> <<>>]
Bytes(held) == MapThenSumSet(LAMBDA h : held[h][2], DOMAIN held)
RECURSIVE Evict(_, _)
Evict(held, cap) == IF Bytes(held) <= cap THEN held
                    ELSE LET lo == Min(DOMAIN held) IN Evict([h \in DOMAIN held \ {lo} |-> held[h]], cap)
Fits(s, n) == n <= s.cap
Push(s, h, id, n) == IF ~Fits(s, n) THEN s ELSE [s EXCEPT !.held = Evict((h :> <<id, n>>) @@ s.held, s.cap)]
Rollback(s, h) == [s EXCEPT !.held = [k \in {j \in DOMAIN s.held : j <= h} |-> s.held[k]]]
=============================================================================
