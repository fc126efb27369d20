---- MODULE StoreTrace ----
(* Validates recorded runs of the real code against Store. *)
EXTENDS TraceBase
S == INSTANCE Store
S0 == S!New(1)
Step(s, l) == CASE l.op = "reset" -> S!New(l.size)
               [] l.op = "freset" -> S!New(64)
               [] l.op \in {"put", "fimport"} -> S!Put(s, l.ids)
               [] l.op \in {"rollback", "frollback"} -> S!Rollback(s, l.h)
               [] l.op = "cut" -> S!Cut(s, l.ids, l.bytes)
               [] l.op = "heal" -> S!Heal(s)
               [] OTHER -> s
Rows(n) == [k \in 1..Len(n.ent) |-> <<k - 1, n.ent[k]>>]
At(n, h) == IF h < Len(n.ent) THEN n.ent[h + 1] ELSE -1
FileView(n, l) ==
  Lab(IF S!Clean(n) THEN l.iter = Rows(n) ELSE IsPrefix(l.iter, Rows(n)), "entries read back differ from those stored")
  \cup Lab(\A k \in DOMAIN l.gets : l.gets[k][2] = At(n, l.gets[k][1]), "entry read by height differs from the one stored")
  \cup Lab(l.check = S!Clean(n), "an incomplete entry is not detected, or a sound store is called corrupt")
  \cup Lab(l.len = (IF S!Clean(n) THEN Len(n.ent) ELSE -1) /\ l.height = (IF S!Clean(n) THEN S!Height(n) ELSE -1), "length or height wrong")
  \cup Lab(l.gen = 0, "genesis changed")
FilterView(n, l) ==
  Lab(l.iter = Rows(n) /\ l.height = S!Height(n) /\ ~l.past, "filter headers differ from those stored")
  \cup Lab(l.tip = n.ent[Len(n.ent)], "filter tip wrong")
  \cup Lab(LET a == l.range[1] b == l.range[2] IN l.range[3] = SubSeq(n.ent, a + 1, IF b + 1 < Len(n.ent) THEN b + 1 ELSE Len(n.ent)), "filter header range wrong")
  \cup Lab(l.prev[2] = IF l.prev[1] = 0 THEN -2 ELSE At(n, l.prev[1] - 1), "previous filter header wrong")
Fails(s, l) ==
  IF l.op = "mismatch" THEN Lab(l.ok <=> (l.same \/ l.n = 0), "store of another network accepted, or of this one refused")
  ELSE IF l.op = "fother" THEN Lab(~l.ver, "filter store of another network verified")
  ELSE LET n == Step(s, l) IN
    (CASE l.op = "put"      -> Lab(l.res = S!Height(n), "append failed or returned the wrong height")
       [] l.op = "fimport"  -> Lab(l.res = S!Height(n), "import failed or returned the wrong height")
       [] l.op = "cut"      -> Lab(~l.res, "an incomplete write was reported as done")
                                \cup Lab(l.bytes >= 0 /\ l.bytes < s.size * Len(l.ids), "a failed write removed or invented bytes")
       [] l.op \in {"rollback", "frollback", "sync", "heal"} -> Lab(l.res, "operation failed")
       [] l.op = "create"   -> Lab(~l.res, "an existing store was replaced")
       [] OTHER -> {})
    \cup (IF l.op \in {"freset", "fimport", "frollback", "freload"}
          THEN FilterView(n, l) \cup (IF l.op = "freset" THEN Lab(l.ver, "genesis filter header refused")
                                      ELSE Lab(l.ver = l.linked, "verification of the filter-header chain wrong"))
          ELSE FileView(n, l))

VARIABLES i, s, bad
vars == <<i, s, bad>>
L == Trace[i]
Init == i = 1 /\ s = S0 /\ bad = {}
Next == /\ i <= Len(Trace) /\ bad = {}
        /\ i' = i + 1
        /\ bad' = Fails(s, L)
        /\ s' = IF bad' = {} THEN Step(s, L) ELSE s
Spec == Init /\ [][Next]_vars
Ok == bad = {} \/ PrintT(<<"FAIL", i - 1, bad>>)
====
