-------------------------------- MODULE Chain --------------------------------
(***************************************************************************)
(* The block tree: remembered headers, fork choice and change reports.     *)
(* D is a derived world: path, cw (cumulative work), val (validity w.r.t.  *)
(* its ancestry), pre (cheap check), par, tm, rank (tip-hash order), cph   *)
(* (checkpoint heights) and main (mainnet tie rule).                       *)
(* A tree state is [act |-> path of the tip, orp |-> remembered others].   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

FutLimit == 7200
Max2(a, b) == IF a > b THEN a ELSE b

SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x

Range(s) == {s[i] : i \in DOMAIN s}
Tip(act) == act[Len(act)]
Height(act) == Len(act) - 1
LastCheckpoint(D, act) == SetMax({0} \cup {c \in D.cph : c <= Height(act)})

OkAt(D, h, now) == D.val[h] /\ D.tm[h] <= now + FutLimit

\* Remembered tips whose whole branch is remembered, connected and valid.
Candidates(D, S, now) ==
  {t \in S.orp : /\ D.path[t] # <<>>
                 /\ \A x \in Range(D.path[t]) \ Range(S.act) : x \in S.orp /\ OkAt(D, x, now)}

\* The possible outcomes of chain selection.
Best(D, S, now) ==
  LET cur   == Tip(S.act)
      cands == Candidates(D, S, now) \cup {cur}
      top   == SetMax({D.cw[t] : t \in cands})
      ties  == {t \in cands : D.cw[t] = top}
  IN IF D.main
     THEN IF D.cw[cur] = top THEN {cur} ELSE ties
     ELSE {t \in ties : \A u \in ties : D.rank[t] <= D.rank[u]}

Switch(D, S, t) ==
  [act |-> D.path[t], orp |-> (S.orp \cup Range(S.act)) \ Range(D.path[t])]

Select(D, S, now) == {Switch(D, S, t) : t \in Best(D, S, now)}

Known(S, h) == h \in S.orp \/ h \in Range(S.act)

Refused(D, S, h, now) ==
  \/ D.par[h] = Tip(S.act) /\ ~OkAt(D, h, now)
  \/ ~D.pre[h]
  \/ /\ D.par[h] \in Range(S.act)
     /\ Len(D.path[D.par[h]]) - 1 < LastCheckpoint(D, S.act)

\* Outcomes of importing one header: set of [s |-> state, ok |-> BOOLEAN].
ImportOne(D, S, h, now) ==
  IF Known(S, h) THEN {[s |-> S, ok |-> TRUE]}
  ELSE IF Refused(D, S, h, now) THEN {[s |-> S, ok |-> FALSE]}
  ELSE LET S1 == [S EXCEPT !.orp = @ \cup {h}]
       IN IF Known(S, D.par[h])
          THEN {[s |-> x, ok |-> TRUE] : x \in Select(D, S1, now)}
          ELSE {[s |-> S1, ok |-> TRUE]}

\* Outcomes of importing a batch: the first refused header ends it.
\* Result: set of [s, at] with at = 0 or the (1-based) position of the refused header.
RECURSIVE ImportFrom(_, _, _, _, _)
ImportFrom(D, S, b, i, now) ==
  IF i > Len(b) THEN {[s |-> S, at |-> 0]}
  ELSE UNION { IF o.ok THEN ImportFrom(D, o.s, b, i + 1, now) ELSE {[s |-> o.s, at |-> i]}
               : o \in ImportOne(D, S, b[i], now) }
ImportBatch(D, S, b, now) == ImportFrom(D, S, b, 1, now)

\* Extending the tip directly: one header, no memory of others.
ExtendTip(D, S, h, now) ==
  IF D.par[h] # Tip(S.act) THEN {[s |-> S, at |-> 0]}
  ELSE IF ~OkAt(D, h, now) THEN {[s |-> S, at |-> 1]}
  ELSE {[s |-> [act |-> Append(S.act, h), orp |-> S.orp \ {h}], at |-> 0]}

\* The change report between two active chains.
ForkLen(a, b) ==   \* number of common leading blocks
  SetMax({0} \cup {k \in 1..(IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)) :
             \A i \in 1..k : a[i] = b[i]})
Reverted(a, b) ==  \* highest first, <<height, id>>
  LET f == ForkLen(a, b) IN [i \in 1..(Len(a) - f) |-> <<Len(a) - i, a[Len(a) - i + 1]>>]
Connected(a, b) ==
  LET f == ForkLen(a, b) IN [i \in 1..(Len(b) - f) |-> <<f + i - 1, b[f + i]>>]

\* A follower applying a report.
ApplyReport(fol, rev, con) ==
  LET cut == IF rev = <<>> THEN fol ELSE SubSeq(fol, 1, rev[Len(rev)][1])
  IN cut \o [i \in DOMAIN con |-> con[i][2]]

\* Linked, starting at genesis.
Linked(D, act) ==
  /\ Len(act) >= 1 /\ act[1] = 0
  /\ \A i \in 2..Len(act) : act[i] \in DOMAIN D.par /\ D.par[act[i]] = act[i - 1]

\* Serving headers.
Locate(act, ls, stop, max) ==
  LET pos(h) == IF h \in Range(act) THEN CHOOSE i \in DOMAIN act : act[i] = h ELSE 0
  IN IF ls = <<>>
     THEN IF pos(stop) > 0 THEN <<stop>> ELSE <<>>
     ELSE LET hits  == {i \in DOMAIN ls : pos(ls[i]) > 0}
              start == IF hits = {} THEN 1
                       ELSE pos(ls[CHOOSE i \in hits : \A j \in hits : i <= j])
              last0 == IF pos(stop) > 0 THEN pos(stop) ELSE Len(act)
              last  == IF last0 > start + max THEN start + max ELSE last0
          IN IF last <= start THEN <<>> ELSE SubSeq(act, start + 1, last)

\* A locator list built from height `from`: starts there, descends, the first eight are
\* consecutive, then gaps at most double, never below the last checkpoint, and reaches down to it or to genesis.
GoodLocator(D, act, from, ls) ==
  LET cp == LastCheckpoint(D, act)
      hs == [i \in DOMAIN ls |-> (CHOOSE k \in DOMAIN act : act[k] = ls[i]) - 1]
  IN /\ \A i \in DOMAIN ls : ls[i] \in Range(act)
     /\ (from >= cp) => (Len(ls) >= 1 /\ hs[1] = from)
     /\ \A i \in DOMAIN ls : hs[i] >= cp
     /\ \A i \in 2..Len(ls) : hs[i] < hs[i - 1]
     /\ \A i \in 2..Len(ls) : hs[i - 1] - hs[i] <= (IF i <= 2 THEN 1 ELSE Max2(1, 2 * (hs[i - 2] - hs[i - 1])))
     /\ \A i \in 2..Len(ls) : i <= 8 => hs[i - 1] - hs[i] = 1
     /\ (from >= cp /\ Len(ls) < 8) => hs[Len(ls)] = cp
     /\ (cp = 0 /\ Len(ls) >= 1) => hs[Len(ls)] = 0
=============================================================================
