------------------------------- MODULE ChainMC -------------------------------
(* Exhaustive exploration of Chain over all small block trees.               *)
EXTENDS Chain, TLC
CONSTANTS N, MaxBatch

VARIABLES D, act, orp, fol, aux
vars == <<D, act, orp, fol, aux>>
Ids == 1..N
Ids0 == 0..N

RECURSIVE PathOf(_, _)
PathOf(par, h) == IF h = 0 THEN <<0>> ELSE Append(PathOf(par, par[h]), h)
RECURSIVE SumWork(_, _, _)
SumWork(par, wk, h) == IF h = 0 THEN 1 ELSE wk[h] + SumWork(par, wk, par[h])

\* kind: 0 valid, 1 invalid w.r.t. ancestry, 2 fails the cheap check
World(par, wk, kind, main, cph) ==
  [ path |-> [h \in Ids0 |-> PathOf(par, h)],
    cw   |-> [h \in Ids0 |-> SumWork(par, wk, h)],
    val  |-> [h \in Ids |-> kind[h] = 0],
    pre  |-> [h \in Ids |-> kind[h] # 2],
    par  |-> [h \in Ids0 |-> IF h = 0 THEN -1 ELSE par[h]],
    tm   |-> [h \in Ids0 |-> h],
    rank |-> [h \in Ids0 |-> N - h],
    cph  |-> cph,
    main |-> main ]

Worlds(n) == {World(par, wk, kind, main, {}) :
             par \in {f \in [Ids -> 0..(N-1)] : \A h \in Ids : f[h] < h},
             wk \in [Ids -> {1, 2}], kind \in [Ids -> {0, 1}], main \in BOOLEAN}

Batches(n) == UNION {[1..k -> Ids] : k \in 1..MaxBatch}

\* Single-header import with its report, as an algorithm.
Rep(S, o) == [rev |-> Reverted(S.act, o.s.act), con |-> Connected(S.act, o.s.act)]

\* The aggregation of reports over a batch (the algorithm of the implementation):
\* R = [rev : set of <<height, id>> that left the initial chain, seen : connected at some time]
RECURSIVE Aggregate(_, _, _, _)
Aggregate(S, b, k, R) ==
  IF k > Len(b) THEN {[s |-> S, R |-> R, ok |-> TRUE]}
  ELSE UNION { IF ~o.ok THEN {[s |-> o.s, R |-> R, ok |-> FALSE]}
               ELSE LET r == Rep(S, o)
                        R1 == [rev  |-> R.rev \cup {x \in Range(r.rev) : x[2] \notin R.seen},
                               seen |-> R.seen \cup {x[2] : x \in Range(r.con)},
                               con  |-> {x \in R.con : \A y \in Range(r.con) : y[1] # x[1]} \cup Range(r.con)]
                    IN Aggregate(o.s, b, k + 1, R1)
               : o \in ImportOne(D, S, b[k], 100) }

Final(a) == [rev |-> {x \in a.R.rev : x[2] \notin Range(a.s.act)},
             con |-> {x \in a.R.con : x[2] \in Range(a.s.act) /\ x \notin a.R.rev}]

Init == act = <<0>> /\ orp = {} /\ fol = <<0>> /\ D \in Worlds(N) /\ aux = <<>>

Import(b) ==
  \E a \in Aggregate([act |-> act, orp |-> orp], b, 1, [rev |-> {}, seen |-> {}, con |-> {}]) :
     /\ act' = a.s.act /\ orp' = a.s.orp
     /\ fol' = ApplyReport(fol, Reverted(act, a.s.act), Connected(act, a.s.act))
     /\ aux' = IF Final(a).rev = Range(Reverted(act, a.s.act)) /\ Final(a).con = Range(Connected(act, a.s.act))
               THEN <<>> ELSE <<"report", act, b>>
     /\ UNCHANGED D

Next == \E b \in Batches(N) : Import(b)

Spec == Init /\ [][Next]_vars

TreeOk ==
  /\ Linked(D, act)
  /\ Range(act) \cap orp = {}
  /\ \A h \in Range(act) \ {0} : D.val[h]
BestOk ==
  \A t \in Candidates(D, [act |-> act, orp |-> orp], 100) :
     \/ D.cw[t] < D.cw[Tip(act)]
     \/ D.cw[t] = D.cw[Tip(act)] /\ (D.main \/ D.rank[t] > D.rank[Tip(act)])
FollowerOk == fol = act
ReportOk == aux = <<>>
\* A locator list (all heights) finds the fork point of any other remembered branch.
LocateOk == \A t \in orp :
    LET f == ForkLen(D.path[t], act)
        ls == [i \in 1..Len(D.path[t]) |-> D.path[t][Len(D.path[t]) - i + 1]]
    IN Locate(act, ls, -1, 2000) = SubSeq(act, f + 1, Len(act))
WorkMonotone == [][D.cw[Tip(act')] >= D.cw[Tip(act)]]_vars
=============================================================================
