---- MODULE PeerStoreTrace ----
(* Validates recorded runs of the real code against PeerStore. *)
EXTENDS TraceBase
P == INSTANCE PeerStore
S0 == P!New
Step(s, l) == CASE l.op = "reset"  -> P!New
               [] l.op = "insert" -> P!Insert(s, l.ip, l.v)
               [] l.op = "update" -> P!Update(s, l.ip, l.v)
               [] l.op = "remove" -> P!Remove(s, l.ip)
               [] l.op = "clear"  -> P!Clear(s)
               [] l.op = "flush"  -> P!Flush(s)
               [] l.op = "reopen" -> P!Reopen(s)
               [] OTHER -> s
Held(n) == {<<ip, n.mem[ip]>> : ip \in DOMAIN n.mem}
Fails(s, l) == LET n == Step(s, l) IN
  CASE l.op = "reset" -> {}
    [] l.op = "damaged" -> Lab(l.res = "err", "damaged file not reported as an error") \cup Lab(l.same, "damaged file was replaced")
    [] OTHER ->
       Lab(Rng(l.all) = Held(n) /\ Len(l.all) = Cardinality(Held(n)), "entries differ")
       \cup Lab(l.len = Cardinality(DOMAIN n.mem), "length wrong")
       \cup (CASE l.op \in {"insert"} -> Lab(l.res = ~P!Has(s, l.ip), "insert result wrong")
               [] l.op = "update" -> Lab(l.res = P!Has(s, l.ip), "lookup for update wrong")
               [] l.op \in {"remove", "get"} -> Lab(l.res = IF P!Has(s, l.ip) THEN s.mem[l.ip] ELSE 0, "lookup wrong")
               [] l.op = "flush" -> Lab(l.res, "flush failed")
               [] l.op = "reopen" -> Lab(l.res = "ok", "flushed file could not be opened")
               [] l.op = "create" -> Lab(~l.res, "an existing file was replaced")
               [] OTHER -> {})

VARIABLES i, s, bad
vars == <<i, s, bad>>
L == Trace[i]
Init == i = 1 /\ s = S0 /\ bad = {}
Next == /\ i <= Len(Trace) /\ bad = {}
        /\ i' = i + 1
        /\ bad' = Fails(s, L)
        /\ s' = IF bad' = {} THEN Step(s, L) ELSE s
Spec == Init /\ [][Next]_vars
Ok == bad = {} \/ PrintT(<<"FAIL", i - 1, bad>>)
====
