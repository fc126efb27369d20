------------------------------ MODULE ChainGen ------------------------------
(* Generator: random small block trees and import schedules, for replay into *)
(* the code. A behaviour first builds a tree header by header (parent, work, *)
(* defect), then fills and submits batches.                                  *)
EXTENDS Chain, TLC
CONSTANTS N, MaxBatch, Steps

VARIABLES par, wk, kd, D, act, orp, cur, hist
vars == <<par, wk, kd, D, act, orp, cur, hist>>

RECURSIVE PathOf(_)
PathOf(h) == IF h = 0 THEN <<0>> ELSE Append(PathOf(par[h]), h)
RECURSIVE SumWork(_)
SumWork(h) == IF h = 0 THEN 1 ELSE wk[h] + SumWork(par[h])
World ==
  [ path |-> [h \in 0..N |-> PathOf(h)], cw |-> [h \in 0..N |-> SumWork(h)],
    val |-> [h \in 1..N |-> kd[h] = 0], pre |-> [h \in 1..N |-> kd[h] # 2],
    par |-> [h \in 0..N |-> IF h = 0 THEN -1 ELSE par[h]], tm |-> [h \in 0..N |-> h],
    rank |-> [h \in 0..N |-> h], cph |-> {}, main |-> FALSE ]

Init == par = <<>> /\ wk = <<>> /\ kd = <<>> /\ D = <<>> /\ act = <<0>> /\ orp = {} /\ cur = <<>> /\ hist = <<>>

Grow == /\ Len(par) < N
        /\ \E p \in 0..Len(par), x \in {1, 2}, y \in 1..8 :
              /\ par' = Append(par, p) /\ wk' = Append(wk, x)
              /\ kd' = Append(kd, IF y > 2 THEN 0 ELSE y)
        /\ UNCHANGED <<D, act, orp, cur, hist>>
Fix  == /\ Len(par) = N /\ D = <<>> /\ D' = World /\ UNCHANGED <<par, wk, kd, act, orp, cur, hist>>
Put(h) == /\ D # <<>> /\ Len(cur) < MaxBatch /\ Len(hist) < Steps /\ cur' = Append(cur, h)
          /\ UNCHANGED <<par, wk, kd, D, act, orp, hist>>
Submit == /\ D # <<>> /\ cur # <<>> /\ Len(hist) < Steps
          /\ \E o \in ImportBatch(D, [act |-> act, orp |-> orp], cur, 100) : act' = o.s.act /\ orp' = o.s.orp
          /\ hist' = Append(hist, cur) /\ cur' = <<>>
          /\ UNCHANGED <<par, wk, kd, D>>
Next == Grow \/ Fix \/ Submit \/ (\E h \in 1..N : Put(h))
Spec == Init /\ [][Next]_vars

Sane == D = <<>> \/ (Linked(D, act) /\ Range(act) \cap orp = {} /\ \A h \in Range(act) \ {0} : D.val[h])
Emit == Len(hist) # Steps \/ PrintT(<<"SCHED", par, wk, kd, hist>>)
=============================================================================
