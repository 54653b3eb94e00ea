"""Shared machinery: building and driving the harness, running TLC, verdicts and evidence."""
import json, os, re, shutil, subprocess, sys, time, random, zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
TARGET = os.environ.get("WSV_TARGET", os.path.join(VERIF, "target"))
HARNESS = os.path.join(TARGET, "debug", "wsharness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
QUICK = TIER != "thorough"


class ToolError(Exception):
    pass


def log(*a):
    print("#", *a, flush=True)


def work_dir(name):
    d = os.path.join(VERIF, "work", name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def build():
    env = dict(os.environ)
    env.update(HOME="/root", RUSTUP_TOOLCHAIN="nightly-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
               CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_TARGET_DIR=TARGET, CARGO_INCREMENTAL="0", RUSTFLAGS="-Awarnings")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
    t = time.time()
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, "harness"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if p.returncode != 0 or not os.path.exists(HARNESS):
        sys.stdout.write(p.stdout[-6000:])
        raise ToolError("harness build failed")
    log("built harness in %.1fs" % (time.time() - t))


# ----------------------------------------------------------------------------- harness
def _limits():
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
        resource.setrlimit(resource.RLIMIT_NOFILE, (min(hard, 4096), hard))
    except Exception:
        pass


def run_harness(scens, wd, shards=None, timeout=20, wall=600, tag="h", env=None):
    """Runs every scenario on the real code; returns {id: [events]}. A scenario that kills or hangs the
    process is recorded as such and the rest is run in a fresh process."""
    shards = shards or min(NCPU, max(1, len(scens) // 8))
    slow = [s for s in scens if s.get("slow")]     # these mostly sleep: each in a process of its own
    scens = [s for s in scens if not s.get("slow")]
    parts = [scens[i::shards] for i in range(shards)] + [[s] for s in slow]
    res = {}
    jobs = []
    env = dict(os.environ, **(env or {}), WSH_TIMEOUT=str(timeout), RUST_BACKTRACE="0")
    t0 = time.time()

    def start(i, part, gen):
        inp = os.path.join(wd, "%s-%d-%d.in" % (tag, i, gen))
        out = os.path.join(wd, "%s-%d-%d.out" % (tag, i, gen))
        with open(inp, "w") as f:
            for s in part:
                f.write(json.dumps(s, separators=(",", ":")) + "\n")
        p = subprocess.Popen([HARNESS, inp, out], env=dict(env, WSH_TIMEOUT="90") if part[0].get("slow") else env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                             preexec_fn=_limits, cwd=wd)
        return dict(i=i, gen=gen, part=part, out=out, p=p)

    for i, part in enumerate(parts):
        if part:
            jobs.append(start(i, part, 0))
    restarts = 0
    while jobs:
        for j in list(jobs):
            if j["p"].poll() is None:
                if time.time() - t0 > wall:
                    j["p"].kill()
                    j["p"].wait()
                    raise ToolError("harness exceeded its wall time")
                continue
            jobs.remove(j)
            got = set()
            if os.path.exists(j["out"]):
                for line in open(j["out"]):
                    try:
                        r = json.loads(line)
                    except ValueError:
                        continue
                    res[r["id"]] = r["ev"]
                    got.add(r["id"])
            rest = [s for s in j["part"] if s["id"] not in got]
            if rest:
                cur = None
                try:
                    cur = int(open(j["out"] + ".cur").read())
                except Exception:
                    pass
                bad = [s for s in rest if s["id"] == cur]
                if j["p"].returncode != 3:
                    if not bad:
                        raise ToolError("harness died (rc %s) outside a scenario" % j["p"].returncode)
                    res[cur] = [{"k": "crash", "op": "run", "e": "exit status %s" % j["p"].returncode}]
                    rest = [s for s in rest if s["id"] != cur]
                restarts += 1
                if restarts > 40:
                    for s in rest:
                        res[s["id"]] = None
                elif rest:
                    jobs.append(start(j["i"], rest, j["gen"] + 1))
        time.sleep(0.01)
    return {k: v for k, v in res.items() if v is not None}


# ----------------------------------------------------------------------------- TLC
class Tlc:
    def __init__(self):
        self.states = self.generated = self.depth = 0
        self.ok = False
        self.violated = None
        self.out = ""


def run_tlc(module, cfg=None, env=None, workers=None, wd=None, timeout=600, heap="8g", extra=(), dfs=False, quiet=True):
    cfg = cfg or module + ".cfg"
    wd = wd or work_dir("tlc-" + module)
    meta = os.path.join(wd, "meta-%s-%d" % (os.path.basename(cfg), int(time.time() * 1000) % 10**9))
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JARS]
    cmd += ["tlc2.TLC", "-config", cfg, "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers or NCPU), "-nowarning"]
    cmd += list(extra) + [module + ".tla"]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                           errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s" % cfg)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = Tlc()
    r.out = p.stdout
    r.rc = p.returncode
    r.wall = time.time() - t
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", p.stdout)
    if m:
        r.generated = int(m[-1][0].replace(",", ""))
        r.states = int(m[-1][1].replace(",", ""))
    m = re.findall(r"Progress\(%? ?(\d+)\)|depth of the complete state graph search is (\d+)", p.stdout)
    d = re.search(r"depth of the complete state graph search is (\d+)", p.stdout)
    r.depth = int(d.group(1)) if d else 0
    r.ok = p.returncode == 0 and "No error has been found" in p.stdout
    v = re.search(r"Error: Invariant (\S+) is violated|Error: (?:Action|Temporal) propert(?:y|ies)(.*?)violated|Error: Deadlock reached", p.stdout)
    if v:
        r.violated = (v.group(1) or v.group(2) or "deadlock").strip()
    return r


def model_check(module, cfg=None, **kw):
    """A model that must hold: any failure here is an error of the machinery, never of the code."""
    r = run_tlc(module, cfg, **kw)
    if not r.ok:
        sys.stdout.write(r.out[-5000:])
        raise ToolError("model %s/%s did not check" % (module, cfg))
    log("model %s: %d states, %d transitions, depth %d, %.1fs" % (cfg or module, r.states, r.generated, r.depth, r.wall))
    return r


RUNS = 2500


def abbreviate(x):
    """Replaces what follows the first RUNS runs of a run-length encoded byte string by one run of a "byte" that stands
    for exactly those bytes (equal values stay equal, different ones different): a garbled megabyte payload, which does
    not compress, would otherwise keep TLC busy for the whole time it has.  Returns (value, how many were shortened)."""
    if isinstance(x, dict):
        n = 0
        for k, v in x.items():
            if isinstance(v, (list, dict)):
                x[k], m = abbreviate(v)
                n += m
        return x, n
    if len(x) > RUNS and all(isinstance(y, list) and len(y) == 2 and isinstance(y[0], int) and isinstance(y[1], int) for y in x):
        rest = x[RUNS:]
        h = zlib.crc32(json.dumps(rest).encode()) & 0x3fffffff
        return x[:RUNS] + [[256 + h, sum(y[1] for y in rest)]], 1
    n = 0
    if x and isinstance(x[0], (list, dict)):
        for i, v in enumerate(x):
            if isinstance(v, (list, dict)):
                x[i], m = abbreviate(v)
                n += m
    return x, n


def validate(module, traces, wd, cfg=None, timeout=600, heap="8g", tag=""):
    """Validates traces (dicts with an integer id) against a trace spec; returns (accepted ids, {id: (event, why)}, tlc)."""
    f = os.path.join(wd, "traces-%s%s.ndjson" % (module, tag))
    acc, rej, left, states, wall = set(), {}, list(traces), 0, 0
    short = sum(abbreviate(t)[1] for t in left)
    if short:
        log("%d payloads that do not compress abbreviated" % short)
    for attempt in range(25):
        with open(f, "w") as o:
            for t in left:
                o.write(json.dumps(t, separators=(",", ":")) + "\n")
        r = run_tlc(module, cfg, env={"TRACE": f}, wd=wd, timeout=timeout, heap=heap)
        states, wall = states + r.states, wall + r.wall
        acc |= set(int(x) for x in re.findall(r'<<"ACCEPT", (\d+)>>', r.out))
        for m in re.finditer(r'<<"REJECT", (\d+), (\d+), "([^"]*)">>', r.out):
            rej[int(m.group(1))] = (int(m.group(2)), m.group(3))
        if r.ok:
            missing = [t["id"] for t in left if t["id"] not in acc and t["id"] not in rej]
            if missing:
                sys.stdout.write(r.out[-3000:])
                raise ToolError("%d traces neither accepted nor rejected, e.g. %s" % (len(missing), missing[:5]))
            break
        m = re.search(r"Error: Invariant (\S+) is violated", r.out)
        ids = re.findall(r"^/\\ tid = (\d+)", r.out, re.M)
        # a recorded value the specification has no meaning for: the trace it belongs to is not a behaviour
        odd = re.search(r"Error: (Evaluating|Attempted|The first argument|The second argument|In applying|TLC threw|Applying|Cannot|Field|Non-|.*argument|.*domain|.*was not)", r.out)
        if not ids or not (m or odd) or re.search(r"OutOfMemory|StackOverflow", r.out):
            sys.stdout.write(r.out[-6000:])
            raise ToolError("TLC failed on %s" % module)
        t = left[int(ids[-1]) - 1]
        rej[t["id"]] = (int((re.findall(r"^/\\ l = (\d+)", r.out, re.M) or ["0"])[-1]), "invariant " + m.group(1) if m else "unexplained")
        acc.discard(t["id"])
        left = [x for x in left if x["id"] not in acc and x["id"] not in rej]
        if not left:
            break
    else:
        sys.stdout.write(r.out[-6000:])
        raise ToolError("TLC failed on %s again and again" % module)
    r.states, r.wall = states, wall
    log("validated %d traces with %s: %d accepted, %d rejected, %d states, %.1fs" %
        (len(traces), module, len(acc), len(rej), r.states, r.wall))
    return acc, rej, r


# ----------------------------------------------------------------------------- known findings, evidence, verdict
def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.wd = work_dir(prop)
        self.rng = random.Random("%s/%s/%s" % (prop, SEED, TIER))
        self.states = self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []     # dicts
        self.known = {}
        self.detail = {}
        self.assumptions = []
        self.events = 0
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)

    def add_model(self, r, name):
        self.states += r.states
        self.transitions += r.generated
        self.detail.setdefault("models", []).append({"model": name, "states": r.states, "transitions": r.generated, "depth": r.depth})

    def model(self, module, cfg=None, **kw):
        r = model_check(module, cfg, wd=self.wd, **kw)
        self.add_model(r, cfg or module)
        return r

    def add_traces(self, module, traces, rej, r, cls=None):
        self.traces += len(traces)
        self.states += r.states
        self.transitions += r.generated
        ne = sum(len(t.get("ev", [])) for t in traces)
        self.events += ne
        self.detail.setdefault("traces", []).append({"spec": module, "traces": len(traces), "events": ne, "rejected": len(rej), "states": r.states,
                                                     "classes": cls or {}})

    def violation(self, why, payload, finding=None):
        if finding and any(finding == k for k, _ in known_findings(self.prop)):
            self.known.setdefault(finding, []).append((why, payload))
            return
        self.violations.append(dict(why=why, payload=payload))

    def sample(self, x, n=4):
        if len(self.samples) < n:
            s = json.dumps(x)
            self.samples.append(json.loads(s) if len(s) < 4000 else s[:1500] + "...")

    def finish(self, level="model_checking"):
        ev = os.path.join(VERIF, "evidence", self.prop + ".json")
        rep = os.path.join(VERIF, "evidence", self.prop + ".replay.json")
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples or ["none"], trace_events=self.events, detail=self.detail, known_findings_seen={k: len(v) for k, v in self.known.items()})
        d = dict(property=self.prop, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=self.assumptions,
                 wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(ev, "w") as f:
            json.dump(d, f, indent=1)
        for k, text in known_findings(self.prop):
            if k in self.known:
                print("KNOWN-FINDING: property=%s %s (%d occurrences in this run)" % (self.prop, text, len(self.known[k])))
        shutil.rmtree(self.wd, ignore_errors=True)
        if self.violations:
            with open(rep, "w") as f:
                json.dump(self.violations[:20], f, indent=1)
            by = {}
            for v in self.violations:
                by[v["why"]] = by.get(v["why"], 0) + 1
            log("violations:", by)
            print("VIOLATION property=%s replay=%s" % (self.prop, rep))
            return 1
        if os.path.exists(rep):
            os.remove(rep)
        log("%s held: %d traces, %d events, %d states, %.1fs" % (self.prop, self.traces, self.events, self.states, time.time() - self.t0))
        return 0
