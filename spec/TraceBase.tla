------------------------------ MODULE TraceBase ------------------------------
(* What every trace-validation module shares: the recorded trace, the name of *)
(* the property being decided, and the end-of-trace check.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop  == IOEnv.PROP
Lab(c, s) == IF c THEN {} ELSE {s}
Rng(q) == {q[k] : k \in DOMAIN q}
Consumed == TLCGet("stats").diameter - 1 = Len(Trace) \/ PrintT(<<"STOPPED", TLCGet("stats").diameter>>)
=============================================================================
