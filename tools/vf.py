"""Machinery shared by all checks: build, run the harness, run TLC, report."""
import concurrent.futures, json, os, random, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, ".build")
TARGET = os.path.join(BUILD, "target")
EVID = os.path.join(ROOT, "evidence")
JARS = ("/opt/veriftools/tla/tla2tools.jar:"
        "/opt/veriftools/tla/CommunityModules-deps.jar")
BATCH = 30 << 20      # bytes of traces for one run of TLC
CORES = min(8, os.cpu_count() or 1)


class ToolError(Exception):
    """Something other than the code under test went wrong (exit 2)"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **kw)


# ---------------------------------------------------------------- building

def _forget(profile_dir, crate):
    """Cargo decides by time stamps; make sure it looks at the sources again"""
    d = os.path.join(profile_dir, ".fingerprint")
    if os.path.isdir(d):
        for n in os.listdir(d):
            if re.fullmatch(re.escape(crate) + r"-[0-9a-f]{16}", n):
                shutil.rmtree(os.path.join(d, n), ignore_errors=True)


def build_harness(profiles=("debug", "release")):
    """Build the driver against /repo's working tree; returns its paths"""
    paths = {}
    for prof in profiles:
        pdir = os.path.join(TARGET, prof)
        for crate in ("gift", "gift-harness"):
            _forget(pdir, crate)
        cmd = ["cargo", "build", "--offline", "--quiet", "--locked",
               "--manifest-path", os.path.join(ROOT, "harness", "Cargo.toml"),
               "--target-dir", TARGET]
        if prof == "release":
            cmd.append("--release")
        r = sh(cmd, env=dict(os.environ, CARGO_NET_OFFLINE="true"))
        if r.returncode != 0:
            raise ToolError("harness does not build:\n" + r.stdout[-4000:])
        paths[prof] = os.path.join(pdir, "gift-harness")
    return paths


def build_cli():
    """Build the gift command from /repo's working tree"""
    tdir = os.path.join(BUILD, "cli")
    for crate in ("gift", "gift-bin"):
        _forget(os.path.join(tdir, "debug"), crate)
    r = sh(["cargo", "build", "--offline", "--quiet", "--locked",
            "--manifest-path", os.path.join(REPO, "Cargo.toml"),
            "--target-dir", tdir, "-p", "gift-bin"],
           env=dict(os.environ, CARGO_NET_OFFLINE="true"))
    if r.returncode != 0:
        raise ToolError("gift command does not build:\n" + r.stdout[-4000:])
    return os.path.join(tdir, "debug", "gift")


# ------------------------------------------------------------ running code

HUNG = []       # the code under test hangs; do not wait that long again


def _run_shard(exe, scns, tag, limit_s):
    """Run scenarios in one process, restarting after a crash or a hang"""
    d = os.path.join(BUILD, "run")
    os.makedirs(d, exist_ok=True)
    inp = os.path.join(d, f"{tag}.in")
    outp = os.path.join(d, f"{tag}.out")
    with open(inp, "w") as f:
        for s in scns:
            f.write(json.dumps(s) + "\n")
    if os.path.exists(outp):
        os.remove(outp)
    restarts = 0
    while True:
        n = 0
        if os.path.exists(outp):
            with open(outp) as f:
                n = sum(1 for _ in f)
        if n >= len(scns):
            break
        r = subprocess.run([exe, inp, outp, str(n)], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True,
                           env=dict(os.environ, HARNESS_LIMIT_S=str(
                               4 if HUNG else limit_s)))
        if r.returncode == 0:
            continue
        if r.returncode == 3:       # watchdog wrote the observation
            HUNG.append(tag)
            restarts += 4
        elif r.returncode == 4:
            raise ToolError("harness: " + r.stderr[-2000:])
        else:                       # abort, signal: an observation as well
            with open(outp) as f:
                m = sum(1 for _ in f)
            with open(outp, "a") as f:
                for _ in range(1 if m < len(scns) else 0):
                    f.write(json.dumps({"k": "crash", "status": r.returncode,
                                        "msg": r.stderr[-300:]}) + "\n")
        restarts += 1
        if restarts > 20:           # more of the same; do not wait for all
            with open(outp) as f:
                m = sum(1 for _ in f)
            with open(outp, "a") as f:
                for _ in range(len(scns) - m):
                    f.write(json.dumps({"k": "skipped"}) + "\n")
    with open(outp) as f:
        obs = [json.loads(x) for x in f]
    os.remove(inp)
    os.remove(outp)
    return obs


def run_harness(exe, scns, tag="s", limit_s=30):
    """Observations for scenarios, in order"""
    if not scns:
        return []
    k = min(CORES, max(1, len(scns) // 20))
    parts = [scns[i::k] for i in range(k)]
    with concurrent.futures.ThreadPoolExecutor(k) as ex:
        res = list(ex.map(lambda a: _run_shard(
            exe, a[1], f"{tag}-{os.getpid()}-{a[0]}", limit_s),
            enumerate(parts)))
    obs = [None] * len(scns)
    for i in range(k):
        obs[i::k] = res[i]
    return obs


# --------------------------------------------------------------------- TLC

class Tlc:
    """Result of a TLC run"""

    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"^(\d+) states generated, (\d+) distinct states", out,
                       re.M)
        self.states, self.distinct = map(int, m[-1]) if m else (0, 0)
        m = re.findall(r"The number of states generated: (\d+)", out)
        if m:
            self.states = max(self.states, int(m[-1]))
        self.ok = rc == 0
        self.deadlock = "Deadlock reached" in out
        self.invariant = re.findall(r"(?:Invariant|property|Assumption) (\S+)"
                                    r"[^\n]*(?:is violated|was violated|is "
                                    r"false)", out)
        self.evalerr = (not self.ok and not self.deadlock
                        and not self.invariant
                        and ("evaluat" in out or "Attempted to" in out
                             or "In computing" in out)
                        and "OutOfMemory" not in out
                        and "Parsing or semantic analysis failed" not in out)

    def prints(self, tag):
        """Values printed with PrintT(<<tag, ToJson(x)>>)"""
        res = []
        for m in re.finditer(r'^<<"%s", "(.*)">>$' % re.escape(tag), self.out,
                             re.M):
            res.append(json.loads(json.loads('"' + m.group(1) + '"')))
        return res

    def alias(self):
        """Last values of t and l in an error trace"""
        t = re.findall(r"/\\ t = (\d+)", self.out)
        l = re.findall(r"/\\ l = (\d+)", self.out)
        return (int(t[-1]) if t else None, int(l[-1]) if l else None)


def tlc(module, cfg=None, env=None, workers=CORES, heap="4g", timeout=800,
        args=()):
    """Run TLC on a module of /verif/spec"""
    meta = os.path.join(BUILD, "tlc", f"{module}-{os.getpid()}-{time.time_ns()}")
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss256m",
           f"-Djava.io.tmpdir={meta}",
           "-cp", JARS, "tlc2.TLC", "-metadir", meta, "-workers", str(workers),
           "-noGenerateSpecTE", "-config", (cfg or module) + ".cfg",
           *args, module + ".tla"]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout,
                           env=dict(os.environ, **(env or {})))
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        raise ToolError(f"TLC: {module}: no result after {timeout} s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    res = Tlc(rc, out, time.time() - t0)
    if not (res.ok or res.deadlock or res.invariant or res.evalerr):
        raise ToolError(f"TLC: {module}: status {rc}\n" + out[-3000:])
    return res


# ------------------------------------------------------------------ checks

class Violation(Exception):
    pass


class Check:
    """One run of one property's check"""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random(f"{self.seed}/{prop}")
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0,
                    "traces_validated_against_impl": 0, "samples": [],
                    "spec_behaviours_replayed": 0, "models": []}
        self.known = {}
        self.exe = None

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough=None):
        """How many, depending on the tier"""
        if thorough is None:
            quick, thorough = 8 * quick, 40 * quick
        return thorough if self.thorough else quick

    def build(self, release=False):
        """Debug build (with overflow checks); the release build as well in
        the thorough tier and where it matters"""
        self.exe = build_harness(("debug", "release")
                                 if release or self.thorough else ("debug",))

    def sample(self, what):
        if len(self.cov["samples"]) < 12:
            self.cov["samples"].append(what)

    # -- reporting

    def violation(self, what, data):
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.prop}.json")
        with open(path, "w") as f:
            json.dump({"property": self.prop, "what": what, **data}, f,
                      indent=1)
        self.write_evidence([what])
        print(f"{self.prop}: {what}")
        print(f"VIOLATION property={self.prop} replay={path}", flush=True)
        sys.exit(1)

    def write_evidence(self, violations=()):
        os.makedirs(EVID, exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed,
              "level": "model_checking", "coverage": self.cov,
              "assumptions": self.assumptions, "violations": list(violations),
              "wall_s": round(time.time() - self.t0, 1)}
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    assumptions = []

    # -- models

    def model(self, module, cfg=None, what="", **kw):
        """Exhaustive check of a model; must hold (it does not depend on the
        code, so a failure is an error of this machinery)"""
        r = tlc(module, cfg, **kw)
        if not r.ok:
            raise ToolError(f"model {module}/{cfg}: {r.out[-3000:]}")
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.states
        self.cov["models"].append({"model": cfg or module, "states": r.distinct,
                                   "transitions": r.states, "what": what,
                                   "wall_s": round(r.wall, 1)})
        return r

    def fails(self, module, cfg, message, what=""):
        """A model of a mistake, which must not hold: shows that the property
        it breaks is not vacuous"""
        r = tlc(module, cfg)
        if message not in r.out:
            raise ToolError(f"model {module}/{cfg} holds: {r.out[-3000:]}")
        self.cov["models"].append({"model": cfg, "states": r.distinct,
                                   "transitions": r.states,
                                   "what": "fails as it must: " + what,
                                   "wall_s": round(r.wall, 1)})

    def behaviours(self, module, cfg=None, what="", **kw):
        """Model run which also prints behaviours to replay (tag SCN)"""
        r = self.model(module, cfg, what, **kw)
        seen, res = set(), []
        for s in r.prints("SCN"):
            key = json.dumps(s, sort_keys=True)
            if key not in seen:
                seen.add(key)
                res.append(s)
        return res

    # -- running

    def run(self, scns, limit_s=30):
        """Observations of the builds: list of (scenario, obs, build)"""
        a = run_harness(self.exe["debug"], scns, self.prop + "d", limit_s)
        if "release" not in self.exe:
            return [(s, x, "debug") for s, x in zip(scns, a)
                    if x.get("k") != "skipped"]
        b = run_harness(self.exe["release"], scns, self.prop + "r", limit_s)
        res = []
        for s, x, y in zip(scns, a, b):
            if x.get("k") != "skipped":
                res.append((s, x, "debug"))
            same = ({k: v for k, v in x.items() if k != "peak"}
                    == {k: v for k, v in y.items() if k != "peak"})
            if (not same or "memkb" in s) and y.get("k") != "skipped":
                res.append((s, y, "release"))
        return res

    def replay(self, scns, expect, what, show=None):
        """Spec to code: run behaviours of the specification and compare what
        the code does with what the specification says; expect: for each
        scenario, the observations which are allowed"""
        runs = self.run(scns)
        by = {}
        for i, s in enumerate(scns):
            by[id(s)] = i
        for s, o, b in runs:
            want = expect[by[id(s)]]
            got = show(o) if show else o
            if got not in want:
                self.violation(
                    f"{what}: the code deviates from a behaviour of the "
                    f"specification", {"scenario": s, "expected": want,
                                       "observed": got, "build": b})
        self.cov["spec_behaviours_replayed"] += len(scns)
        if scns:
            self.sample({"replayed": what, "scenario": _short(scns[0]),
                         "expected": _short(expect[0])})

    # -- trace validation

    def validate(self, module, records, what, cfg=None, origin=None, env=None,
                 **kw):
        """Code to spec: every record must be a behaviour of the trace module.
        origin: what to put in the replay file for each record"""
        if not records:
            return None
        path = os.path.join(BUILD, f"trace-{self.prop}-{os.getpid()}.ndjson")
        os.makedirs(BUILD, exist_ok=True)
        size, n = 0, 0
        with open(path, "w") as f:
            for r in records:
                text = json.dumps(r) + "\n"
                if n and size + len(text) > BATCH:
                    break
                f.write(text)
                size, n = size + len(text), n + 1
        rest, records = records[n:], records[:n]
        try:
            r = tlc(module, cfg, env=dict(env or {}, TRACE=path), **kw)
        finally:
            keep = os.environ.get("VERIF_KEEP")
            if not keep:
                os.remove(path)
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.states
        self.cov["traces_validated_against_impl"] += len(records)
        self.cov["models"].append({"model": cfg or module, "states": r.distinct,
                                   "transitions": r.states,
                                   "what": f"trace validation: {what}",
                                   "traces": len(records),
                                   "wall_s": round(r.wall, 1)})
        self.sample({"validated": what, "record": _short(records[0])})
        if r.ok:
            if rest:
                more = self.validate(module, rest, what, cfg,
                                     origin and origin[n:], env, **kw)
                r.out += more.out
            return r
        if r.evalerr and len(records) > 1:
            # an observation outside the types of the specification: find it
            h = len(records) // 2
            for lo, hi in ((0, h), (h, len(records))):
                self.validate(module, records[lo:hi], what, cfg,
                              origin and origin[lo:hi], env, **kw)
            raise ToolError(f"{module}: {r.out[-3000:]}")
        t, l = (1, None) if r.evalerr else r.alias()
        if t is None:
            raise ToolError(f"{module}: no position\n{r.out[-3000:]}")
        rec = records[t - 1]
        self.violation(
            f"{what}: recorded run is not a behaviour of the specification "
            f"(first unexplained event: {l})",
            {"module": module, "record": rec, "event": l,
             "origin": origin[t - 1] if origin else None,
             "tlc": r.out[-1500:] if r.evalerr else None})

    # -- known findings

    def finding(self, key, what):
        self.known[key] = what

    def finish(self):
        listed = known_findings(self.prop)
        for key, text in listed.items():
            print(f"KNOWN-FINDING: property={self.prop} {text}")
        self.write_evidence()
        print(f"{self.prop}: ok ({self.cov['states']} states, "
              f"{self.cov['traces_validated_against_impl']} traces validated, "
              f"{self.cov['spec_behaviours_replayed']} behaviours replayed, "
              f"{time.time() - self.t0:.0f} s)")


def known_findings(prop):
    """Entries "finding: property=<id> key=<key> <text>" """
    res = {}
    path = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3).strip()
    return res


def _short(x, n=600):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


# ------------------------------------------------- records for TraceDecode

DEFAULT_MAX = 1 << 25


def decode_record(scn, obs):
    """Record for TraceDecode from a scenario and its observation"""
    if obs.get("k") != "decode":
        obs = {"items": [{"k": obs.get("k", "panic")}], "ends": [0], "peak": 0}
    return {"iface": scn["iface"], "bytes": scn["bytes"],
            "max": scn.get("max", DEFAULT_MAX),
            "fail": scn.get("fail_at", -1), "what": scn.get("what", []),
            "npre": scn.get("npre", 1),
            "memkb": scn.get("memkb", -1), "items": obs["items"],
            "ends": obs["ends"], "peak": obs["peak"]}
