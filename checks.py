"""What each check runs."""
import os

def chain(ctx):
    ctx.build()
    # 1. the specification itself
    if ctx.thorough():
        ctx.model_check("ChainMC", "ChainMC.cfg", consts=dict(N=4, MaxBatch=2))
    ctx.model_check("ChainMC", "ChainMC.cfg")
    # 2. behaviours of the specification replayed into the code
    num = ctx.scale(600, 6000)
    def gen_job(k):
        bs = ctx.generate("ChainGen", "ChainGen.cfg", num, 80, ctx.seed * 100 + k)
        f = os.path.join(ctx.work, "sched%d.txt" % k)
        with open(f, "w") as o:
            for par, wk, kd, hist in bs:
                j = lambda v: " ".join(map(str, v))
                o.write("|".join([j(par), j(wk), j(kd), ";".join(j(b) for b in hist)]) + "\n")
        t = ctx.drive(["chain", "--schedules", f, "--seed", ctx.seed * 100 + k], "chain-gen%d" % k)
        ctx.validate("ChainTrace", t)
        return t
    # 3. random larger worlds recorded and validated
    runs = ctx.scale(350, 4000)
    def rnd_job(k):
        t = ctx.drive(["chain", "--seed", ctx.seed * 1000 + k, "--runs", runs], "chain-rnd%d" % k)
        ctx.validate("ChainTrace", t)
        return t
    ts = ctx.parallel([lambda k=k: gen_job(k) for k in range(2)] + [lambda k=k: rnd_job(k) for k in range(6)])
    for t in ts:
        ctx.count(t, {"changed": '"res":"changed"', "reorgs": r'"rev":\[\[', "errors": '"res":"error"', "unchanged": '"res":"unchanged"',
                      "restarts": '"op":"reopen"', "extend": '"op":"extend"'})
    ctx.sample_lines(ts[0], 3)
    ctx.sample_lines(ts[-1], 2)


def small(driver, module, counts, quick=400, thorough=6000, mc=None, jobs=(8, 16), crate="harness", extra=(), full=True):
    """A self-contained part: exhaustive model, then recorded runs validated against the same operators."""
    def run(ctx, full=full):
        ctx.build(crate)
        if full:
            ctx.model_check(module + "MC", module + "MC.cfg")
        if full and ctx.thorough() and mc:
            ctx.model_check(module + "MC", module + "MC.cfg", consts=mc)
        def job(k):
            t = ctx.drive([driver, "--seed", ctx.seed * 1000 + k, "--runs", ctx.scale(quick, thorough), *extra], "%s%d" % (driver, k), crate=crate)
            ctx.validate(module + "Trace", t)
            return t
        ts = ctx.parallel([lambda k=k: job(k) for k in range(ctx.scale(*jobs))])
        for t in ts:
            ctx.count(t, counts)
        ctx.sample_lines(ts[0], 5)
    return run

CHECKS = {p: chain for p in ("C01", "C02", "C03", "C13")}
CHECKS["C04"] = small("store", "Store", {"cut writes": '"op":"cut"', "torn entries": r'"len":-1', "heals": '"op":"heal"', "reopens": '"op":"reopen"',
                                          "rollbacks": '"op":"rollback"', "filter reloads": '"op":"freload"', "refused networks": r'"op":"mismatch","same":false,"n":[123],"ok":false'},
                      mc=dict(Size=4, MaxId=9, MaxBatch=4))
CHECKS["C15"] = small("clock", "Clock", {"samples": '"op":"record"', "moved": r'"off":-?[1-9]'}, mc=dict(MaxSources=7, Sources="{1, 2, 3, 4, 5, 6, 7, 8}"))
CHECKS["C16"] = small("timers", "Timers", {"fired": r'"woken":\[\d', "merged": '"op":"register".*"res":false'}, mc=dict(Times="{0, 1, 2, 3, 4, 5, 6, 7}"))
CHECKS["C17"] = small("stream", "Stream", {"decoded": r'"out":\[\d', "errors": '"err":true', "partial": r'"out":\[\],"err":false'}, quick=300, thorough=3000, mc=dict(MaxMsgs=5))
CHECKS["C18"] = small("peers", "PeerStore", {"flushes": '"op":"flush"', "reopens": '"op":"reopen"', "damaged": '"op":"damaged"'}, mc=dict(Ips="{1, 2, 3, 4}"))
CHECKS["C20"] = small("bus", "Bus", {"publish": '"op":"publish"', "concurrent": '"op":"conc"', "drops": '"op":"drop"'}, mc=dict(MaxLog=6))
CHECKS["C21"] = small("fees", "Fees", {"estimates": r'"res":\[\d', "none": r'"res":\[\]', "rollbacks": '"op":"rollback"'}, mc=dict(MaxOps=6))
CHECKS["C24"] = small("fcache", "FCache", {"pushes": '"op":"push"', "refused": '"res":false', "rollbacks": '"op":"rollback"'}, mc=dict(Heights="{1, 2, 3, 4, 5}"))

NET_COUNTS = {"handshakes": '"e":"negotiated"', "refused": '"r":"(PeerServices|PeerProtocolVersion|PeerHeight|PeerMisbehaving|PeerMagic)"', "timeouts": '"r":"PeerTimeout"',
              "inbound limit": '"r":"ConnectionLimit"', "pings": '"m":"ping"', "pongs": '"m":"pong"', "automatic connections": '"e":"connecting"', "addresses served": '"m":"addr"',
              "imports": '"k":"import"', "dial errors": '"f":true', "clock moved": r'"off":-?[1-9]\d*}', "bursts": r'"ins":\[{[^]]*},{"k"'}
def net(ctx, full=True):
    """The whole node in a simulated reactor; every turn validated against Net."""
    ctx.build()
    if full:
        ctx.model_check("NetMC", "NetMC.cfg", consts=dict(Budget=8, MaxT=4) if ctx.thorough() else None)
    def job(k):
        t = ctx.drive(["net", "--seed", ctx.seed * 1000 + k, "--runs", ctx.scale(110, 1200), "--steps", 100], "net%d" % k)
        ctx.validate("NetTrace", t)
        return t
    ts = ctx.parallel([lambda k=k: job(k) for k in range(ctx.scale(8, 16))])
    for t in ts:
        ctx.count(t, NET_COUNTS)
    ctx.sample_lines(ts[0], 4)
for _p in ("C10", "C11", "C12", "C14", "C22"):
    CHECKS[_p] = net
_clock = CHECKS["C15"]
def c15(ctx):
    _clock(ctx)
    net(ctx, full=False)
CHECKS["C15"] = c15

DATA_COUNTS = {"headers asked": '"m":"getheaders"', "headers served": '"m":"headers"', "reorganisations": '"reorg":true', "in sync": '"e":"synced"',
               "filter headers asked": '"m":"getcfheaders"', "filter headers served": '"m":"cfheaders"', "filters received": '"e":"freceived"',
               "filters scanned": '"e":"fprocessed"', "scans finished": '"e":"stopped"', "blocks delivered": '"e":"processed"', "matches": '"e":"matched"',
               "announcements": '"m":"inv"', "transactions given": '"m":"tx"', "confirmed": '"e":"confirmed"', "reverted": '"e":"reverted"',
               "settled": '"op":"settled"', "restarts": '"op":"restart"'}
def data(ctx, full=True):
    """The whole node with peers that serve headers, filters and blocks, some of them badly; every turn validated against Data."""
    ctx.build()
    if full:
        ctx.model_check("DataMC", "DataMC.cfg", consts=dict(Budget=9, MaxT=3) if ctx.thorough() else None)
    def job(k):
        t = ctx.drive(["data", "--seed", ctx.seed * 1000 + k, "--runs", ctx.scale(160, 1600), "--steps", 140], "data%d" % k)
        ctx.validate("DataTrace", t, reset=("world", "restart"))
        return t
    ts = ctx.parallel([lambda k=k: job(k) for k in range(ctx.scale(8, 24))])
    for t in ts:
        ctx.count(t, DATA_COUNTS)
    ctx.sample_lines(ts[0], 4)
for _p in ("C05", "C06", "C07", "C08", "C09", "C23"):
    CHECKS[_p] = data
def both(first, second):
    def run(ctx):
        first(ctx)
        second(ctx, full=False)
    return run
for _p in ("C03", "C13", "C21"):
    CHECKS[_p] = both(CHECKS[_p], data)

CHECKS["C19"] = small("wallet", "Wallet", {"applied": '"op":"apply"', "received": '"used":true', "sessions": '"op":"session"', "locked": '"op":"locked"', "reopens": '"op":"reopen"'},
                      quick=200, thorough=2000, mc=dict(MaxPasses=6), crate="wharness")
CHECKS["C25"] = small("reactor", "Reactor", {"inbound": '"op":"pconnect"', "dials": '"op":"dial"', "refused": '"op":"askdial".*"ok":false', "received": '"op":"recv"', "writes": '"op":"write"',
                      "peer closed": '"op":"pfin"', "peer reset": '"op":"prst"', "told to close": '"op":"drop"', "wake-ups": '"op":"expired"', "commands": '"op":"command"', "events": '"op":"event"'},
                      quick=120, thorough=1000, mc=dict(Budget=6), jobs=(4, 8), extra=("--par", 8))
CHECKS["C17"] = both(CHECKS["C17"], small("wire", "Stream", {"connections": '"op":"reset"'}, quick=300, thorough=3000))
CHECKS["C16"] = both(CHECKS["C16"], CHECKS["C25"])

NOTES = {}
NOT_APPLICABLE = {}
