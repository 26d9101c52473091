"""C05 (subbytes) and C06 (NumberGenerator)."""
import itertools, random
import common
from common import Outcome, SEED, THOROUGH, validate, tlc

def run(prop):
    return c05() if prop == "C05" else c06()

# ------------------------------------------------------------------ C05
OPT = lambda v: [] if v is None else [v]

class Rec:
    """Performs operations on real subbytes objects and records what it saw."""
    def __init__(self, data):
        from snmp.utils import subbytes
        self.cls = subbytes
        self.data = bytes(data)
        self.orig = list(data)
        self.views = [self.data]
        self.ev = []

    def trace(self):
        return {"data": self.orig, "ev": self.ev}

    def _do(self, e, f):
        try:
            e["err"] = ""
            f(e)
        except Exception as x:
            e["err"] = type(x).__name__
        self.ev.append(e)
        return e["err"] == ""

    def new(self, v, a, b, kw=0):
        def f(e):
            if kw == 1:
                r = self.cls(self.views[v], start=a, stop=b)
            elif kw == 2 and b is None:
                r = self.cls(self.views[v], a) if a is not None else self.cls(self.views[v])
            else:
                r = self.cls(self.views[v], a, b)
            self.views.append(r)
        return self._do(dict(op="new", v=v, a=OPT(a), b=OPT(b)), f)

    def adv(self, v):
        return self._do(dict(op="adv", v=v), lambda e: self.views.append(self.views[v].advance()))

    def spl(self, v, i):
        return self._do(dict(op="spl", v=v, i=i), lambda e: self.views.extend(self.views[v].split(i)))

    def obs(self, v):
        def f(e):
            x = self.views[v]
            e["len"] = len(x)
            e["truth"] = bool(x)
            e["items"] = list(x)
            e["copy"] = list(x[:])
            e["same"] = bool(x == bytes(e["items"])) and bool(x == self.cls(bytes(e["items"])))
            e["base"] = list(x.data)
        return self._do(dict(op="obs", v=v), f)

    def eq(self, v, other, view):
        o = self.cls(b"\x07" + bytes(other) + b"\x07", 1, 1 + len(other)) if view else bytes(other)
        def f(e):
            r = self.views[v] == o
            e["out"] = bool(r)
        return self._do(dict(op="eq", v=v, other=list(other)), f)

    def idx(self, v, i):
        return self._do(dict(op="idx", v=v, i=i, out=[]), lambda e: e.update(out=[self.views[v][i]]))

    def der(self, v):
        return self._do(dict(op="der", v=v, out=[]), lambda e: e.update(out=[self.views[v].dereference()]))

    def slc(self, v, a, b, s):
        def f(e):
            r = self.views[v][a:b] if s is None else self.views[v][a:b:s]
            e["out"] = list(r)
        return self._do(dict(op="slc", v=v, a=OPT(a), b=OPT(b), s=1 if s is None else s), f)

    def rep(self, v, x):
        return self._do(dict(op="rep", v=v, x=list(x)), lambda e: e.update(out=list(self.views[v].replace(bytes(x)))))

def c05():
    out = Outcome("C05", "model_checking")
    rng = random.Random(SEED)
    traces = []
    R = 5 if THOROUGH else 4
    maxlen = 4 if THOROUGH else 3
    bounds = [None] + list(range(-R, R + 1))
    # exhaustive: every view of every view of short data, with a rotating probe on each
    probes = itertools.cycle([(a, b, s) for a in bounds for b in bounds for s in (None, 1, 2, 3)])
    for n in range(0, maxlen + 1):
        data = [10 + i for i in range(n)]
        for a, b in itertools.product(bounds, bounds):
            r = Rec(data)
            if not r.new(0, a, b, kw=rng.randrange(3)):
                traces.append(r.trace()); continue
            r.obs(1)
            for i in range(-R, R + 1):
                r.idx(1, i)
            r.der(1)
            for c, d in itertools.product(bounds, bounds):
                r.slc(1, c, d, rng.choice((None, 1, 2, 3)))
                if r.new(1, c, d):
                    v = len(r.views) - 1
                    r.obs(v)
                    r.rep(v, b"\xaa\xbb")
                    x, y, s = next(probes)
                    r.slc(v, x, y, s)
                    r.idx(v, rng.randrange(-R, R + 1))
                    r.der(v)
                    if rng.random() < 0.2:
                        r.adv(v) and r.obs(len(r.views) - 1)
                        if r.spl(v, rng.randrange(-R, R + 1)):
                            r.obs(len(r.views) - 2); r.obs(len(r.views) - 1)
            for v in range(1, len(r.views), 17):
                r.obs(v)
            traces.append(r.trace())
    exhaustive_pairs = sum(len(t["ev"]) for t in traces)
    # random deep histories over longer data
    for _ in range(2000 if THOROUGH else 400):
        n = rng.choice((0, 1, 2, 5, 9, 20, 40))
        r = Rec([rng.randrange(256) for _ in range(n)])
        rb = lambda: rng.choice((None, rng.randrange(-n - 3, n + 4), rng.randrange(-3, 4)))
        ri = lambda: rng.randrange(-n - 3, n + 4)
        r.new(0, rb(), rb(), rng.randrange(3))
        for _ in range(25):
            if len(r.views) < 2:
                break
            v = rng.randrange(1, len(r.views))
            k = rng.randrange(9)
            if k <= 1: r.new(v, rb(), rb(), rng.randrange(3))
            elif k == 2: r.adv(v)
            elif k == 3: r.spl(v, ri())
            elif k == 4: r.slc(v, rb(), rb(), rng.choice((None, 1, 2, 3, 7)))
            elif k == 5: r.idx(v, ri())
            elif k == 6: r.rep(v, bytes(rng.randrange(256) for _ in range(rng.randrange(4))))
            elif k == 7: r.der(v)
            else:
                x = list(r.views[v])
                y = list(x)
                m = rng.randrange(4)
                if m == 1 and y: y[rng.randrange(len(y))] ^= 1
                elif m == 2: y = y[:-1]
                elif m == 3: y = y + [0]
                r.eq(v, y, rng.random() < 0.5)
        for v in range(1, len(r.views)):
            r.obs(v)
        traces.append(r.trace())
    # long views that differ from a value in one octet only, early, late or at a power of two
    for n in (63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000) + ((5000,) if THOROUGH else ()):
        r = Rec([rng.randrange(256) for _ in range(n + 7)])
        for a in (0, 1, 5, -n):
            if not r.new(0, a, None if rng.random() < .5 else a + n if a >= 0 else None): continue
            v = len(r.views) - 1
            x = list(r.views[v])
            r.eq(v, x, False); r.eq(v, x, True)
            for i in {0, 1, 31, 32, 63, 64, 127, 128, 255, 256, len(x) // 2, len(x) - 2, len(x) - 1}:
                if 0 <= i < len(x):
                    y = list(x); y[i] ^= 1 << rng.randrange(8)
                    r.eq(v, y, rng.random() < .5)
            r.eq(v, x[:-1], True); r.eq(v, x + [0], False)
            for i in (0, 62, 63, 64, 126, 127, 128, 255, 256, len(x) - 1, len(x), -len(x), -len(x) - 1): r.idx(v, i)
            r.slc(v, rng.choice((None, 60, 127)), rng.choice((None, 129, -1)), rng.choice((None, 1, 2, 7)))
            r.rep(v, b"\x01\x02")
        traces.append(r.trace())
    bads, res = validate("SubbytesTrace", traces)
    out.take(bads, traces)
    out.coverage = dict(states=res.distinct, transitions=res.generated, traces_validated_against_impl=len(traces),
                        evaluations=sum(len(t["ev"]) for t in traces),
                        distinct_nontrivial=len({repr(e) for t in traces for e in t["ev"] if e["op"] not in ("adv",)}),
                        rule="one evaluation = one operation on a real view, compared by TLC with the sequence it denotes; "
                             "exhaustive over every pair of nested windows of short data, random deep histories beyond",
                        exhaustive_events=exhaustive_pairs, samples=[traces[200]["ev"][:6], traces[-1]["ev"][:6]])
    return out

# ------------------------------------------------------------------ C06
_force = []
_real_randint = random.randint
def _randint(a, b):
    if _force:
        v = _force[0]
        if a <= v <= b:
            return v
    return _real_randint(a, b)

def c06():
    random.randint = _randint          # before snmp.utils binds it
    random.seed(SEED)
    out = Outcome("C06", "model_checking")
    st = tr = 0
    for n in range(1, 8 if THOROUGH else 7):
        for signed in ("TRUE", "FALSE"):
            r = tlc("MCNumGen", f"CONSTANTS N = {n} SIGNED = {signed}\nINIT Init\nNEXT Next\n"
                    "INVARIANTS Range Once ZeroLast EndsAtZero\nCHECK_DEADLOCK FALSE\n", workers=4)
            if not r.ok:
                raise common.TLCError("MCNumGen: model broken\n" + r.out[-2000:])
            st += r.distinct; tr += r.generated
    from snmp.utils import NumberGenerator
    traces, cycles, windows = [], 0, 0
    rng = random.Random(SEED)
    def seq(n, signed, step, count):
        _force[:] = [step]
        try:
            g = NumberGenerator(n, signed) if signed is not None else NumberGenerator(n)
            it = iter(g)
            return [next(it if rng.random() < .5 else g) for _ in range(count)]
        finally:
            _force.clear()
    def several(specs, count):
        """Generators that live at the same time, advanced in a random order."""
        gs, outs = [NumberGenerator(n, signed) for n, signed in specs], [[] for _ in specs]
        live = list(range(len(specs)))
        while live:
            i = rng.choice(live); outs[i].append(next(gs[i]))
            if len(outs[i]) == count(specs[i][0]): live.remove(i)
        return outs
    def limbs(n, o):
        k = max(2, -(-n // 16))
        return [[v >> 16 * (k - 1)] + [v >> 16 * i & 0xffff for i in range(k - 2, -1, -1)] for v in o]
    top = 9 if THOROUGH else 8
    for n in range(1, top + 1):
        steps = range(1, (1 << (n - 1)) + 1)
        for signed in (True, False):
            for s in steps:
                if n >= 8 and not THOROUGH and s % 4 != 1 and s not in (1 << (n - 1), 2, 3):
                    continue
                o = seq(n, None if signed and rng.random() < .3 else signed, s, 2 << n)
                traces.append({"ev": [dict(op="cycle", n=n, signed=signed, out=o)]}); cycles += 1
    for k in range(12 if THOROUGH else 4):
        specs = [(rng.choice((3, 4, 5, 6, 8)), rng.random() < .5) for _ in range(3)]
        specs.append(specs[0])
        for (n, sg), o in zip(specs, several(specs, lambda n: 2 << n)):
            traces.append({"ev": [dict(op="cycle", n=n, signed=sg, out=o)]}); cycles += 1
    for n in (10, 12, 14, 16):
        for _ in range(2 if n < 14 or THOROUGH else 1):
            sg = rng.random() < .5
            traces.append({"ev": [dict(op="cycle", n=n, signed=sg, out=seq(n, sg, rng.randint(1, 1 << (n - 1)), 2 << n))]}); cycles += 1
    edge = lambda h: [1, 2, 3, h, h - 1, h // 2, h // 2 + 1, h // 3]
    for n, signed in ((31, False), (32, True), (31, True), (32, False), (24, True), (17, False), (33, True), (48, False), (54, True), (63, True), (64, False), (65, True), (128, False)):
        h = 1 << (n - 1)
        for s in edge(h) + [rng.randint(1, h) for _ in range(8 if THOROUGH else 4)]:
            o = seq(n, signed, s, 1500 if n in (31, 32) else 300)
            traces.append({"ev": [dict(op="window", n=n, signed=signed, out=limbs(n, o))]}); windows += 1
    bads, res = validate("NumGenTrace", traces)
    out.take(bads, traces, lambda t, b: "n=%(n)d signed=%(signed)s" % t["ev"][0] + " out=" + repr(t["ev"][0]["out"][:12]))
    out.coverage = dict(states=st + res.distinct, transitions=tr + res.generated, traces_validated_against_impl=len(traces),
                        evaluations=sum(len(t["ev"][0]["out"]) for t in traces),
                        distinct_nontrivial=cycles, windows=windows,
                        rule="one trace = two complete cycles of a generator (every width <= %d, every internal step chosen "
                             "through random.randint) or the first outputs of a wide one" % top,
                        samples=[traces[3]["ev"][0], traces[40]["ev"][0]])
    out.assumptions = ["For widths above 16 only the start of the cycle is observed; the full-cycle theorem for the modelled "
                       "algorithm is checked by TLC for n <= 7."]
    return out
