"""Shared plumbing: scratch space, /repo import environment, TLC runs, evidence, verdicts."""
import atexit, importlib, importlib.util, json, os, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif-")
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch

def setup_repo_import():
    """Import snmp from /repo's working tree, never from stale bytecode."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(scratch(), "pyc")
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    os.environ.setdefault("OPENSSL_CONF", os.path.join(VERIF, "harness", "openssl-legacy.cnf"))

def build_openssl():
    """Compile the cffi extension from /repo/snmp/cffi/openssl.py in scratch and load it as snmp.openssl."""
    if "snmp.openssl" in sys.modules and getattr(sys.modules["snmp.openssl"], "_verif", False):
        return
    out = os.path.join(scratch(), "ext")
    os.makedirs(out, exist_ok=True)
    spec = importlib.util.spec_from_file_location("verif_cffi_openssl", os.path.join(REPO, "snmp/cffi/openssl.py"))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    so = mod.ffi.compile(tmpdir=out)
    import snmp
    spec = importlib.util.spec_from_file_location("snmp.openssl", so)
    ext = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(ext)
    sys.modules["snmp.openssl"] = ext
    snmp.openssl = ext
    ext._verif = True

class TLCError(Exception):
    pass

class TLCResult:
    def __init__(self, out, wall):
        self.out, self.wall = out, wall
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        self.ok = "Model checking completed. No error has been found." in out
        self.violated = re.findall(r"(?:Invariant|Action property|Property|Temporal property) (\S+) (?:is|was) violated", out)
        self.printed = []
        for line in out.splitlines():
            if line.startswith('"') and line.endswith('"'):
                try:
                    self.printed.append(json.loads(line))
                except ValueError:
                    pass

def tlc(module, cfg, files=None, workers=8, timeout=600, extra=(), heap="6g", check=True):
    """Run TLC on spec/<module>.tla with the given cfg text; `files` are written beside it."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
    for name, content in (files or {}).items():
        p = os.path.join(d, name)
        if os.path.lexists(p):
            os.unlink(p)
        with open(p, "w") as fh:
            fh.write(content)
    with open(os.path.join(d, "run.cfg"), "w") as fh:
        fh.write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss512m", "-Djava.io.tmpdir=" + d,
           "-cp", JAVA_CP, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "meta"),
           "-noGenerateSpecTE", "-config", "run.cfg", *extra, module + ".tla"]
    t0 = time.monotonic()
    try:
        pr = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
        out = pr.stdout
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or "")
        out += "\nTIMEOUT"
    r = TLCResult(out, time.monotonic() - t0)
    shutil.rmtree(d, True)
    if check and not r.ok and not r.violated:
        raise TLCError(f"TLC failed on {module}:\n" + out[-6000:])
    return r

class Bad:
    """A contract clause broken by event `l` (1-based) of trace `ti` (0-based)."""
    def __init__(self, ti, l, clauses, info=None):
        self.ti, self.l, self.clauses, self.info = ti, l, clauses, info

TRACE_CFG = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"

def validate(module, traces, consts="", workers=8, timeout=800, length=lambda t: len(t["ev"]), files=None):
    """Batch trace validation. Each trace is a dict with a list `ev`. Returns (bads, TLCResult)."""
    if not traces:
        return [], None
    payload = json.dumps(traces, separators=(",", ":"))
    r = tlc(module, TRACE_CFG + consts, dict(files or {}, **{"traces.json": payload}), workers=workers, timeout=timeout)
    bads = {}
    for p in r.printed:
        if isinstance(p, str) and p.startswith("BAD "):
            d = json.loads(p[4:])
            bads[d["ti"]] = Bad(d["ti"] - 1, d["l"], sorted(d["bad"]), d)
    for b in bads.values():
        if any(c.startswith("SPEC") for c in b.clauses):
            raise TLCError(f"{module}: specification and harness disagree: {b.clauses} at {traces[b.ti]['ev'][b.l - 1]}")
    want = 0
    for i, t in enumerate(traces):
        want += (bads[i + 1].l - 1 if (i + 1) in bads else length(t)) + 1
    if r.distinct != want:
        raise TLCError(f"{module}: {r.distinct} states, expected {want}; trace specification and traces disagree\n" + r.out[-3000:])
    return list(bads.values()), r

# ---------------------------------------------------------------- several processors
class ChildError(Exception):
    def __init__(self, text, in_repo): super().__init__(text); self.in_repo = in_repo

def pmap(fn, items, procs=None):
    """[fn(x) for x in items], over forked processes; fn may be a closure, results are pickled."""
    import pickle
    items = list(items)
    procs = min(procs or min(8, os.cpu_count() or 1), max(1, len(items) // 4))
    if len(items) < 8: return [fn(x) for x in items]
    d = tempfile.mkdtemp(prefix="pmap-", dir=scratch())
    pids = []
    sys.stdout.flush(); sys.stderr.flush()
    for k in range(procs):
        pid = os.fork()
        if pid == 0:
            rc = 3
            try:
                try: res = ("ok", [fn(x) for x in items[k::procs]])
                except BaseException as e:
                    fr = traceback.extract_tb(e.__traceback__)
                    res = ("err", traceback.format_exc(), any(f.filename.startswith(os.path.join(REPO, "snmp") + os.sep) for f in fr))
                with open(os.path.join(d, str(k)), "wb") as fh: pickle.dump(res, fh, -1)
                rc = 0
            finally: os._exit(rc)
        pids.append(pid)
    for p in pids: os.waitpid(p, 0)
    out = [None] * len(items)
    for k in range(procs):
        try:
            with open(os.path.join(d, str(k)), "rb") as fh: res = pickle.load(fh)
        except (OSError, EOFError): raise RuntimeError("a worker process died")
        if res[0] == "err": raise ChildError(res[1], res[2])
        out[k::procs] = res[1]
    shutil.rmtree(d, True)
    return out

# ---------------------------------------------------------------- verdicts and evidence
class Outcome:
    """What one check did. Violations are (clause, description, replay-object)."""
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.coverage, self.assumptions, self.violations = {}, [], []
        self.t0 = time.monotonic()

    def violation(self, clause, desc, replay):
        self.violations.append((clause, desc, replay))

    def take(self, bads, traces, describe=None):
        """Keep the broken clauses that belong to this property."""
        for b in bads:
            mine = [c for c in b.clauses if c.split(".")[0] == self.prop]
            if mine:
                t = traces[b.ti]
                ev = t["ev"][b.l - 1] if 0 < b.l <= len(t["ev"]) else None
                self.violation(",".join(mine), describe(t, b) if describe else json.dumps(ev)[:400],
                               {"clauses": b.clauses, "at": b.l, "event": ev, "trace": t})

    def add(self, key, n=1):
        self.coverage[key] = self.coverage.get(key, 0) + n

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level, coverage=self.coverage,
                  assumptions=self.assumptions, wall_s=round(time.monotonic() - self.t0, 2),
                  violations=len(self.violations))
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if not self.violations:
            print(f"OK property={self.prop} " + " ".join(f"{k}={v}" for k, v in self.coverage.items() if isinstance(v, (int, bool))))
            return 0
        seen = set()
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        for n, (clause, desc, replay) in enumerate(self.violations):
            if clause in seen:
                continue
            seen.add(clause)
            path = os.path.join(d, f"{self.prop}-{len(seen)}.json")
            with open(path, "w") as f:
                json.dump(dict(property=self.prop, clause=clause, description=desc, seed=SEED, tier=TIER, replay=replay), f, indent=1, default=str)
            print(f"{clause}: {desc}")
            print(f"VIOLATION property={self.prop} replay={path}")
            if len(seen) >= 8:
                break
        return 1
