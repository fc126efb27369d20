------------------------------ MODULE ChainTrace ------------------------------
(* Validates recorded runs of the real block tree against Chain/Consensus.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
C == INSTANCE Chain
K == INSTANCE Consensus

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop  == IOEnv.PROP

VARIABLES i, w, d, act, orp, bad
vars == <<i, w, d, act, orp, bad>>

L == Trace[i]
Lab(c, s) == IF c THEN {} ELSE {s}
Known0 == {h \in 1..w.n : h \in orp \/ h \in C!Range(act)}

\* ---- C01: fork choice and lookups -----------------------------------------
\* Observed tree state after the line.
ObsKnown(l) == {h \in DOMAIN l.kn : l.kn[h]}
ChainSane(l) == C!Linked(d, l.chain)
ObsOrp(l) == ObsKnown(l) \ C!Range(l.chain)

Lookups(l) ==
  Lab(l.hok, "heights or tip inconsistent")
  \cup Lab(l.otip = C!Tip(l.chain) /\ l.oht = Len(l.chain) - 1, "tip/height do not match chain")
  \cup Lab(l.owork = d.cw[C!Tip(l.chain)], "chain work is not the sum of the headers' work")
  \cup Lab(\A h \in DOMAIN l.gb : l.gb[h] = IF h \in C!Range(l.chain) THEN Len(d.path[h]) - 1 ELSE -1, "lookup by hash wrong")
  \cup Lab(\A h \in DOMAIN l.ct : l.ct[h] <=> h \in C!Range(l.chain), "membership wrong")
  \cup Lab(l.byh = 0, "lookup by height wrong")
  \cup Lab(l.rg[3] = [k \in 1..(C!Max2(0, (IF l.rg[2] < Len(l.chain) THEN l.rg[2] ELSE Len(l.chain)) - l.rg[1])) |->
                        <<l.rg[1] + k - 1, l.chain[l.rg[1] + k]>>], "range wrong")
  \cup Lab(LET h == l.fb[1]
               onAct == h \in C!Range(l.chain)
               conn == h # 0 /\ d.path[h] # <<>> /\ \A x \in C!Range(d.path[h]) : x \in C!Range(l.chain) \/ x \in ObsKnown(l)
               f == C!ForkLen(d.path[h], l.chain)
           IN IF onAct THEN l.fb[2] = Len(d.path[h]) - 1 /\ l.fb[3] = <<h>>
              ELSE IF conn THEN l.fb[2] = f - 1 /\ l.fb[3] = SubSeq(d.path[h], f, Len(d.path[h]))
              ELSE l.fb[2] = -1, "branch lookup wrong")

S0 == [act |-> act, orp |-> orp]
Outcomes(l) == IF l.op = "extend" THEN C!ExtendTip(d, S0, l.b[1], l.now)
               ELSE C!ImportBatch(d, S0, l.b, l.now)
\* The headers of the batch that were processed.
Done(l) == IF l.res = "error" THEN SubSeq(l.b, 1, l.at) ELSE l.b

ValidChain(l) ==   \* every header new to the active chain obeys the rules
  \A k \in DOMAIN l.chain : l.chain[k] \in C!Range(act) \/ C!OkAt(d, l.chain[k], l.now)

C01(l) ==
  IF ~ChainSane(l) THEN {"active chain is not linked from genesis"}
  ELSE Lookups(l)
    \cup (IF ~ValidChain(l) THEN {}   \* judged by C02
          ELSE Lab(\E o \in Outcomes(l) : o.s.act = l.chain, "active chain is not the best known chain"))
    \cup Lab(\A h \in Known0 : l.kn[h], "a known header was forgotten")
    \cup Lab(\E o \in Outcomes(l) : \A h \in DOMAIN l.kn : l.kn[h] <=> C!Known(o.s, h), "set of known headers wrong")

\* ---- C02: validity --------------------------------------------------------
C02(l) ==
  IF ~ChainSane(l) THEN {"active chain is not linked from genesis"}
  ELSE Lab(ValidChain(l), "an invalid header is on the active chain")
    \cup Lab(\E o \in Outcomes(l) : (l.res = "error") <=> (o.at # 0), "wrong verdict on a header")
    \cup Lab(l.res = "error" /\ l.op = "import" => \E o \in Outcomes(l) : o.at = l.at + 1, "wrong header blamed")
    \cup Lab(\E o \in Outcomes(l) : \A h \in C!Range(o.s.act) \ C!Range(act) : l.kn[h], "a valid header was refused")
    \cup Lab(\A h \in (1..w.n) \ Known0 :
               l.kn[h] => \E o \in Outcomes(l) : C!Known(o.s, h), "a refused header was remembered")

\* ---- C03: change reports --------------------------------------------------
C03(l) ==
  CASE l.res = "changed" ->
        Lab(l.rev = C!Reverted(act, l.chain), "reverted blocks are not those that left the chain")
        \cup Lab(l.con = C!Connected(act, l.chain), "connected blocks are not those that joined the chain")
        \cup Lab(l.tip = C!Tip(l.chain) /\ l.tiphdr = l.tip /\ l.ht = Len(l.chain) - 1, "reported tip wrong")
        \cup Lab(l.chain # act, "change reported but chain unchanged")
        \cup Lab(l.rev = <<>> \/ l.rev[Len(l.rev)][1] <= Len(act) => C!ApplyReport(act, l.rev, l.con) = l.chain, "follower diverges")
    [] l.res = "unchanged" -> Lab(l.chain = act, "chain changed without a report")
    [] OTHER -> {}

\* ---- C13: serving ---------------------------------------------------------
C13(l) ==
  Lab(l.lh[4] = C!Locate(l.chain, l.lh[1], l.lh[2], l.lh[3]), "headers served are wrong")
  \cup Lab(C!GoodLocator(d, l.chain, l.loc[1], l.loc[2]), "locator wrong")
  \cup Lab(l.lcp = C!LastCheckpoint(d, l.chain), "last checkpoint wrong")

\* ---- C04: restart ---------------------------------------------------------
C04r(l) == Lab(l.stored = act, "stored headers are not the active chain")
           \cup Lab(l.chain = act, "reloaded chain differs")
           \cup Lab(l.owork = d.cw[C!Tip(act)], "reloaded chain work differs")
           \cup Lab(\A h \in DOMAIN l.kn : l.kn[h] <=> h \in C!Range(act), "reloaded index wrong")

Fails(l) ==
  IF l.op = "panic" THEN {"panic"}
  ELSE IF l.op = "world" THEN {}
  ELSE IF l.op = "reopen" THEN
       (CASE Prop = "C04" -> C04r(l) [] Prop = "C01" -> Lookups(l) [] Prop = "C13" -> C13(l) [] OTHER -> {})
  ELSE CASE Prop = "C01" -> C01(l)
         [] Prop = "C02" -> C02(l)
         [] Prop = "C03" -> C03(l)
         [] Prop = "C13" -> C13(l)
         [] OTHER -> {}

Init == /\ i = 1 /\ bad = {} /\ w = [n |-> 0] /\ d = [n |-> 0] /\ act = <<0>> /\ orp = {}
Next ==
  /\ i <= Len(Trace) /\ bad = {}
  /\ i' = i + 1
  /\ bad' = Fails(L)
  /\ IF L.op = "world"
     THEN /\ w' = L /\ d' = K!Derive(L) /\ act' = <<0>> /\ orp' = {}
     ELSE IF L.op = "panic" THEN UNCHANGED <<w, d, act, orp>>
     ELSE /\ UNCHANGED <<w, d>>
          /\ act' = L.chain
          /\ orp' = ObsOrp(L)
Spec == Init /\ [][Next]_vars
Ok == bad = {} \/ PrintT(<<"FAIL", i - 1, bad>>)
Consumed == TLCGet("stats").diameter - 1 = Len(Trace) \/ PrintT(<<"STOPPED", TLCGet("stats").diameter>>)
=============================================================================
