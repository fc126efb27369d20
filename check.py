#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property. See DESIGN.md."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, "spec")
TARGET = os.path.join(ROOT, "target")
CORES = 8
ENV = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="1.73", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="",
           CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=TARGET,
           PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
ENV["RUSTFLAGS"] = "--cfg nakamoto_verif"

class ToolError(Exception):
    pass

def log(*a):
    print(*a, file=sys.stderr, flush=True)

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = os.path.join(ROOT, "build", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(ROOT, "build", "replay")
        os.makedirs(self.replays, exist_ok=True)
        self.states = self.transitions = self.traces = self.lines = 0
        self.samples, self.notes, self.violations, self.models = [], {}, [], []
        self.known = [k for k in json.load(open(os.path.join(ROOT, "known_findings.json")))["known"] if k["property"] == prop]
        self.known_hits = {}
        self.t0 = time.time()
        self.built = set()
        self.pool = cf.ThreadPoolExecutor(CORES)

    def thorough(self):
        return self.tier == "thorough"

    def scale(self, quick, thorough):
        return thorough if self.thorough() else quick

    # -- building -----------------------------------------------------------
    def build(self, crate="harness"):
        if crate in self.built:
            return
        d = os.path.join(ROOT, crate)
        r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=d, env=ENV, capture_output=True, text=True, timeout=800)
        if r.returncode != 0:
            raise ToolError("build of %s failed:\n%s" % (crate, r.stderr[-4000:]))
        self.built.add(crate)
        log("[%5.1fs] built %s" % (time.time() - self.t0, crate))

    # -- TLC ----------------------------------------------------------------
    def tlc(self, module, cfg, extra=(), env=None, timeout=800, workers=1, heap="3g", consts=None):
        meta = os.path.join(self.work, "meta-%s-%d" % (module, time.monotonic_ns()))
        if consts:
            src = open(os.path.join(SPEC, cfg)).read()
            for k, v in consts.items():
                src, n = re.subn(r"(?m)^(\s*(?:CONSTANTS?\s+)?%s\s*=\s*).*$" % re.escape(k), lambda m: m.group(1) + str(v), src)
                if n != 1:
                    raise ToolError("constant %s not in %s" % (k, cfg))
            cfg = os.path.join(self.work, "%s-%d.cfg" % (module, time.monotonic_ns()))
            open(cfg, "w").write(src)
        cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss64m",
               "-cp", TLACP, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE", "-metadir", meta,
               "-config", cfg, *extra, module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=dict(ENV, **(env or {})), capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on %s" % module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, r.stdout + r.stderr

    def model_check(self, module, cfg, timeout=700, workers=CORES, consts=None):
        """Exhaustive check of the specification itself."""
        t = time.time()
        rc, out = self.tlc(module, cfg, timeout=timeout, workers=workers, heap="8g", consts=consts)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
        if rc != 0 or not m or "No error has been found" not in out:
            raise ToolError("model %s (%s) failed:\n%s" % (module, cfg, out[-3000:]))
        self.transitions += int(m.group(1))
        self.states += int(m.group(2))
        self.models.append(dict(module=module, cfg=cfg, consts=consts or {}, generated=int(m.group(1)), distinct=int(m.group(2)), wall_s=round(time.time() - t, 1)))
        log("[%5.1fs] model %s: %s distinct states" % (time.time() - self.t0, module, m.group(2)))

    def generate(self, module, cfg, num, depth, seed, consts=None, tag="SCHED"):
        """Behaviours of the specification, one tuple per behaviour, as nested Python lists."""
        rc, out = self.tlc(module, cfg, extra=("-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)), consts=consts, timeout=600)
        if "Finished in" not in out or re.search(r"^Error", out, re.M):
            raise ToolError("generation from %s failed:\n%s" % (module, out[-3000:]))
        res = []
        for m in re.finditer(r'<<\s*"%s",(.*?)(?=\n<<\s*"%s"|\nProgress|\nThe number|\nFinished|\Z)' % (tag, tag), out, re.S):
            body = m.group(1).strip()
            assert body.endswith(">>"), body[-40:]
            res.append(parse_tla("<<" + body))
        if not res:
            raise ToolError("no behaviours generated from %s" % module)
        return res

    # -- drivers and trace validation ---------------------------------------
    def drive(self, args, name, crate="harness", timeout=400, env=None):
        """Run the real code; returns the trace path (and records a violation if the process dies)."""
        out = os.path.join(self.work, name + ".ndjson")
        cmd = [os.path.join(TARGET, "debug", crate), *map(str, args), "--out", out]
        e = dict(ENV, VERIF_SCRATCH=self.work, **(env or {}))
        try:
            r = subprocess.run(cmd, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            self.violate("hang", dict(cmd=cmd, what="the code under test did not return within %d s" % timeout), name)
            return None
        if r.returncode != 0:
            if r.returncode == 3:
                raise ToolError("driver %s: %s" % (cmd, r.stderr[-2000:]))
            self.violate("crash", dict(cmd=cmd, rc=r.returncode, stderr=r.stderr[-3000:]), name)
            return None
        return out

    def validate(self, module, trace, cfg=None, env=None, reset=("world", "reset"), heap="3g"):
        """Validate a recorded trace; returns number of lines."""
        if trace is None:
            return 0
        e = dict(TRACE=trace, PROP=self.prop)
        e.update(env or {})
        rc, out = self.tlc(module, cfg or module + ".cfg", env=e, timeout=800, heap=heap)
        lines = open(trace).read().splitlines()
        m = re.search(r'<<\s*"FAIL",\s*(\d+),\s*\{(.*?)\}\s*>>', out, re.S)
        if m:
            self.trace_failure(module, trace, lines, int(m.group(1)), re.findall(r'"([^"]*)"', m.group(2)), reset)
        elif "No error has been found" in out and '"STOPPED"' not in out:
            pass
        else:
            s = re.search(r"(\d+) states generated", out)
            err = re.search(r"(?s)Error:.*?(?=Error: The behavior|\Z)", out)
            if s and int(s.group(1)) > 1 and err and "java.lang.OutOfMemory" not in out:
                # The specification has no transition for what the code did.
                ln = max([int(x) for x in re.findall(r"(?m)^/\\ i = (\d+)$", out)] or [1])
                self.trace_failure(module, trace, lines, min(ln, len(lines)), ["outside the specification: " + err.group(0)[:300].replace("\n", " ")], reset)
            else:
                raise ToolError("TLC could not validate %s:\n%s" % (trace, out[-3000:]))
        self.lines += len(lines)
        self.traces += sum(1 for l in lines if l.startswith('{"op":"%s"' % reset[0]) or l.startswith('{"op":"%s"' % reset[-1]))
        return len(lines)

    def trace_failure(self, module, trace, lines, at, labels, reset):
        start = at - 1
        while start > 0 and not any(lines[start].startswith('{"op":"%s"' % r) for r in reset):
            start -= 1
        if start < 0:
            start = 0
        self.violate("trace", dict(module=module, labels=labels, step=at - start, line=lines[at - 1] if at >= 1 else "", history=lines[start:at]), os.path.basename(trace))

    def violate(self, kind, data, name):
        text = json.dumps(data)
        for k in self.known:
            if all(re.search(p, text) for p in k["match"]):
                self.known_hits[k["what"]] = self.known_hits.get(k["what"], 0) + 1
                return
        n = len(self.violations)
        path = os.path.join(self.replays, "%s-%s-%d.json" % (self.prop, re.sub(r"\W+", "_", name), n))
        json.dump(dict(property=self.prop, kind=kind, seed=self.seed, tier=self.tier, **data), open(path, "w"), indent=1)
        self.violations.append(path)
        log("violation (%s): %s" % (kind, json.dumps({k: v for k, v in data.items() if k != "history"})[:1500]))

    def parallel(self, jobs):
        futs = [self.pool.submit(j) for j in jobs]
        return [f.result() for f in futs]

    def sample_lines(self, trace, n=3, ops=None):
        if trace is None or len(self.samples) >= 8:
            return
        with open(trace) as f:
            k = 0
            for l in f:
                if ops and not any('"op":"%s"' % o in l for o in ops):
                    continue
                self.samples.append(json.loads(l) if len(l) < 2500 else l[:600])
                k += 1
                if k >= n:
                    return

    def count(self, trace, what):
        """Count regex occurrences in a trace (non-vacuity)."""
        if trace is None:
            return
        text = open(trace).read()
        for name, rx in what.items():
            self.notes[name] = self.notes.get(name, 0) + len(re.findall(rx, text))

    def finish(self, level="model_checking"):
        zero = [k for k, v in self.notes.items() if v == 0 and not k.startswith("~")]
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level,
                  coverage=dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                                trace_steps=self.lines, models=self.models, reached=self.notes, samples=self.samples[:8],
                                exhaustive=False),
                  assumptions=ASSUME.get(self.prop, []), wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w"), indent=1)
        for w in self.known_hits:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, w))
        for v in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, v))
        if self.violations:
            return 1
        if zero:
            raise ToolError("nothing reached for: " + ", ".join(zero))
        log("[%5.1fs] %s held: %d traces, %d steps, %d model states" % (time.time() - self.t0, self.prop, self.traces, self.lines, self.states))
        shutil.rmtree(self.work, ignore_errors=True)
        return 0

def parse_tla(s):
    """Parse nested TLA+ tuples/sets of ints, strings and booleans."""
    toks = re.findall(r'<<|>>|\{|\}|-?\d+|"[^"]*"|TRUE|FALSE', s)
    def go(i):
        t = toks[i]
        if t in ("<<", "{"):
            r, i = [], i + 1
            while toks[i] not in (">>", "}"):
                v, i = go(i)
                r.append(v)
            return r, i + 1
        if t[0] == '"':
            return t[1:-1], i + 1
        if t in ("TRUE", "FALSE"):
            return t == "TRUE", i + 1
        return int(t), i + 1
    return go(0)[0]

def tla_classpath():
    for c in ("/opt/veriftools/tla/tla2tools.jar",):
        jars = [c]
        d = os.path.dirname(c)
        jars += [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".jar") and f != os.path.basename(c)]
        return ":".join(jars)
TLACP = tla_classpath()

ASSUME = {}
from checks import CHECKS  # noqa: E402

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    ctx = Ctx(prop, tier, seed)
    try:
        CHECKS[prop](ctx)
        sys.exit(ctx.finish())
    except ToolError as e:
        # A violation already found stands, whatever happened to the rest.
        if ctx.violations:
            for v in ctx.violations:
                print("VIOLATION property=%s replay=%s" % (prop, v))
            sys.exit(1)
        log("TOOL ERROR:", e)
        sys.exit(2)

if __name__ == "__main__":
    main()
