"""C23..C25: datagrams on real sockets, the engine's life-cycle, and hostile traffic; judged by Mux.tla, EngineLife.tla and the request contracts."""
import json, os, random, socket, sys, threading, time
import common, selftest
from common import SEED, THOROUGH
P = common.pmap

BROKEN = b"\xb5BROKEN"
LOST, STUCK, IDLE = 6.0, 6.0, 0.02

_cpus, slow = None, [0]
def pinned(fn):
    """One processor per worker: the loopback interface then keeps the order of what is sent."""
    def f(x):
        global _cpus
        try:
            if _cpus is None: _cpus = sorted(os.sched_getaffinity(0))
            os.sched_setaffinity(0, {_cpus[os.getpid() % len(_cpus)]})
        except (OSError, AttributeError): pass
        return fn(x) if slow[0] < 3 else dict(ev=[], ns=1, d={}, nn=0, nu=0)      # this processor has seen enough failures
    return f

def have_ipv6():
    try:
        s = socket.socket(socket.AF_INET6, socket.SOCK_DGRAM); s.bind(("::1", 0)); s.close()
        return True
    except OSError: return False

# ---------------------------------------------------------------- C23: the multiplexor
class MuxRun:
    """A real multiplexor on loopback sockets; listen() runs in its own thread, `script` is carried out around it."""
    def __init__(self, backend, ns, size, g, v6):
        import importlib
        from snmp.transport.udp import UdpIPv4Socket, UdpIPv6Socket
        mod = importlib.import_module("snmp.transport.%s.udp" % backend)
        self.g, self.size, self.lock = g, size, threading.RLock()
        self.ev, self.script, self.waiting = [], [], {}
        self.mux = mod.UdpMultiplexor(size)
        self.socks, self.senders, self.no = [], [], {}
        run = self
        def sub(base):
            class Recorded(base):
                def receive(self, size):
                    run.point("receive")
                    x = base.receive(self, size)
                    run.point("received")
                    if bytes(x[1]).startswith(BROKEN): raise BlockingIOError(11, "Resource temporarily unavailable")
                    return x
            return Recorded
        for i in range(ns):
            six = v6 and g.random() < 0.4
            s = sub(UdpIPv6Socket if six else UdpIPv4Socket)("::1" if six else "127.0.0.1", 0)
            self.no[id(s)] = i + 1
            out = []
            for _ in range(2):
                o = socket.socket(socket.AF_INET6 if six else socket.AF_INET, socket.SOCK_DGRAM)
                o.bind(("::1" if six else "127.0.0.1", 0))
                out.append(o)
            self.socks.append(s); self.senders.append(out); self.waiting[i + 1] = []
        self.nd, self.last, self.thread, self.running = 0, time.monotonic(), None, False
        self.mandatory = 0
    def log(self, k, **f):
        f["k"] = k
        with self.lock: self.ev.append(f)
    # ------------------------------------------------------ environment
    def payload(self, kind, d):
        g, n = self.g, self.size
        if kind == "broken": return BROKEN + b"%d" % d
        if kind == "empty": return b""
        if kind == "nul": return g.choice([b"\0", b"\0\0"])
        if kind == "same": return b"same"
        if kind == "full": return (b"%d-" % d) + bytes(g.randrange(256) for _ in range(8)) + bytes(max(0, n - 8 - len(b"%d-" % d))) if n > 24 else b"f" * n
        if kind == "over": return (b"%d-" % d) + b"o" * n
        return (b"%d:" % d + bytes(g.randrange(256) for _ in range(g.randint(0, 40))))[:n]
    def arrive(self, s, kind):
        with self.lock:
            self.nd += 1
            d, data = self.nd, self.payload(kind, self.nd)
            data = data[:65507]
            # never more than the receive buffer of a socket holds
            if sum(2 * len(x[1]) + 1000 for x in self.waiting[s]) + 2 * len(data) > 150000: data = b"%d" % d; kind = "plain"
            opt = kind == "broken" or len(data) > self.size
            o = self.g.choice(self.senders[s - 1])
            self.log("send", s=s, d=d, opt=opt)
            self.waiting[s].append((d, data, o.getsockname()[:2]))
            dst = self.socks[s - 1].socket.getsockname()
            o.sendto(data, dst)
            self.last = time.monotonic()
    def hear(self, sock, addr, data):
        with self.lock:
            s = self.no.get(id(sock), 0)
            d, frm = 0, True
            if s:
                w = self.waiting[s]
                # prefer the one from this sender: equal datagrams may be in flight
                c = [x for x in w if bytes(data) == x[1] or len(x[1]) > self.size and bytes(data) == x[1][:len(data)]]
                if c:
                    d = c[0][0]; frm = tuple(addr)[:2] == tuple(c[0][2])
                    w[:] = [x for x in w if x[0] > d]
                else:
                    e = [x for x in self.gone.get(s, []) if x[1] == bytes(data)]
                    if e: d = e[-1][0]
                if d: self.gone.setdefault(s, []).append((d, bytes(data)))
            self.log("hear", s=s or 1, d=d, **{"from": frm})
            self.last = time.monotonic()
        self.point("heard")
    gone = {}
    def point(self, where):
        with self.lock:
            self.last = time.monotonic()
            self.chunk(where)
    def chunk(self, where):
        """Carry out the next part of the script, up to the next point."""
        if not self.script or self.script[0][0] == "ret": return
        if self.script[0][0] == "point" and self.script[0][1] not in (None, where): return
        while self.script:
            a = self.script[0]
            if a[0] == "ret": return
            self.script.pop(0)
            if a[0] == "point": return
            self.do(a)
    def do(self, a):
        if a[0] == "arrive": self.arrive(a[1], a[2])
        elif a[0] == "stop":
            self.log("stop", exc="")
            i = len(self.ev) - 1
            try: self.mux.stop()
            except Exception as e: self.ev[i]["exc"] = type(e).__name__
        elif a[0] == "reg":
            x = ""
            try: self.mux.register(self.socks[a[1] - 1])
            except Exception as e: x = type(e).__name__
            self.log("reg", s=a[1], exc=x)
        elif a[0] == "stray": self.stray()
    def stray(self):
        """Datagrams from elsewhere to whatever control socket the multiplexor uses."""
        own = {x.socket.getsockname()[1] for x in self.socks} | {o.getsockname()[1] for p in self.senders for o in p}
        for v in vars(self.mux).values():
            if isinstance(v, socket.socket) and v.fileno() >= 0:
                a = v.getsockname()
                if a[1] in own: continue
                o = socket.socket(v.family, socket.SOCK_DGRAM)
                o.bind((a[0], 0))
                o.sendto(self.g.choice([b"\0", b"\0\0", b"", b"stop"]), a[:2])
                o.close()
    # ------------------------------------------------------ the application
    def listen(self):
        self.log("listen")
        self.running = True
        def body():
            x = ""
            try: self.mux.listen(self)
            except BaseException as e: x = type(e).__name__
            with self.lock:
                self.log("ret", exc=x)
                self.running = False
        self.thread = threading.Thread(target=body, daemon=True)
        self.thread.start()
    def outstanding(self):
        reg = {e["s"] for e in self.ev if e["k"] == "reg" and not e["exc"]}
        opt = {e["d"] for e in self.ev if e["k"] == "send" and e["opt"]}
        return [x for s in reg for x in self.waiting[s] if x[0] not in opt]
    def phase(self):
        """From a call of listen to its return."""
        self.listen()
        t0 = time.monotonic()
        while self.running:
            with self.lock:
                more = bool(self.script) and self.script[0][0] != "ret"
                if more and time.monotonic() - self.last > IDLE:
                    self.last = time.monotonic()
                    if self.script[0][0] == "point": self.script.pop(0)
                    self.chunk("idle")
                    continue
                asked = any(e["k"] == "stop" for e in self.ev[max(i for i, e in enumerate(self.ev) if e["k"] == "listen"):])
            if not more and asked:
                self.thread.join(0.01)
                if time.monotonic() - max(self.last, t0) > STUCK and self.running:
                    slow[0] += 1
                    self.log("stuck"); return False
            else: time.sleep(0.002)
        self.thread.join()
        while self.script and self.script[0][0] != "ret": self.do(self.script.pop(0)) if self.script[0][0] != "point" else self.script.pop(0)
        if self.script: self.script.pop(0)
        return True
    def last_phase(self):
        """Listen until everything that must be heard was, then stop for good and close."""
        self.script = []
        self.listen()
        self.last = time.monotonic()
        while self.running and time.monotonic() - self.last < LOST:
            with self.lock:
                if not self.outstanding(): break
            time.sleep(0.002)
        if time.monotonic() - self.last >= LOST: slow[0] += 1
        time.sleep(IDLE)
        with self.lock: self.log("quiet")
        with self.lock: self.do(("stop",))
        t = time.monotonic()
        while self.running and time.monotonic() - t < STUCK: self.thread.join(0.05)
        if self.running:
            slow[0] += 1
            self.log("stuck"); return False
        return True
    def close(self):
        x = ""
        try: self.mux.close()
        except Exception as e: x = type(e).__name__
        self.log("close", exc=x)
        for i, s in enumerate(self.socks): self.log("closed", s=i + 1, closed=s.socket.fileno() == -1)
        for s in self.socks:
            if s.socket.fileno() != -1: s.socket.close()
        for p in self.senders:
            for o in p: o.close()
        return self.trace()
    def trace(self): return dict(ev=self.ev, ns=len(self.socks))

KINDS = ["plain"] * 4 + ["full", "empty", "nul", "same", "same", "over", "broken"]
def mux_replay(job):
    backend, hist, seed, v6 = job
    g = random.Random(seed)
    ns = max([a["s"] for a in hist] + [1])
    r = MuxRun(backend, ns, g.choice([1472, 1472, 484, 3, 65507]), g, v6)
    r.gone = {}
    r.do(("reg", 1))
    kind = lambda b: "broken" if b and r.size > 10 else g.choice(KINDS[:-1])
    i = 0
    while i < len(hist):
        a = hist[i]
        if a["a"] == "listen":
            j = next((k for k in range(i, len(hist)) if hist[k]["a"] == "ret"), len(hist))
            r.script = [("arrive", x["s"], kind(x["broken"])) if x["a"] == "arrive" else ("stop",) if x["a"] == "stop" else ("point", None) for x in hist[i + 1:j]] + [("ret",)]
            if not r.phase(): return r.trace()
            i = j + 1
            continue
        if a["a"] == "arrive": r.arrive(a["s"], kind(a["broken"]))
        elif a["a"] == "reg": r.do(("reg", a["s"]))
        i += 1
    if r.last_phase(): return r.close()
    return r.trace()

def mux_history(job):
    backend, seed, v6 = job
    g = random.Random(seed)
    ns = g.randint(1, 5)
    r = MuxRun(backend, ns, g.choice([1472, 1472, 484, 12, 65507]), g, v6)
    r.gone = {}
    order = list(range(1, ns + 1))
    reg = order[:g.randint(1, ns)]
    for s in reg: r.do(("reg", s))
    kinds = [k for k in KINDS if r.size > 24 or k not in ("broken", "full")]
    for _ in range(g.randint(1, 4)):
        for _ in range(g.choice([0, 0, 1, 3, 8])): r.arrive(g.choice(order), g.choice(kinds))
        sc = []
        for _ in range(g.randint(0, 10)):
            x = g.random()
            if x < 0.6: sc.append(("arrive", g.choice(order), g.choice(kinds)))
            elif x < 0.7: sc.append(("stray",))
            else: sc.append(("point", g.choice([None, "receive", "received", "heard"])))
        at = len(sc) if g.random() < 0.5 else g.randint(0, len(sc))
        sc.insert(at, ("stop",))
        if g.random() < 0.15: sc.insert(0, ("stop",)); sc = sc[:1] + [a for a in sc[1:] if a[0] != "stop"]
        r.script = sc + [("ret",)]
        if not r.phase(): return r.trace()
        left = [s for s in order if s not in reg]
        if left and g.random() < 0.6: s = g.choice(left); reg.append(s); r.do(("reg", s))
        if g.random() < 0.1: r.do(("reg", g.choice(reg)))
    if r.last_phase(): return r.close()
    return r.trace()

def mux_model(out, n):
    base = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Contract Conserved %s\n%sCONSTANTS NS=%d ND=%d NL=%d Keep=%s\n"
    r = common.tlc("MuxModel", base % ("", "PROPERTY Stops Delivers\n", *((3, 4, 2) if THOROUGH else (2, 3, 2)), "FALSE"), timeout=600)
    if not r.ok: raise common.TLCError("MuxModel: the design breaks the contract\n" + r.out[-3000:])
    out.add("design_states", r.distinct)
    if THOROUGH: out.add("broken_designs_found_out", selftest.run("MuxModel"))
    s = {}
    for a in ((3, 6, 3), (2, 5, 2)):
        r = common.tlc("MuxModel", base.replace("SPECIFICATION Spec", "INIT Init\nNEXT Next") % ("Export", "", *a, "TRUE"),
                       extra=("-simulate", "num=%d" % n, "-depth", "90", "-seed", str(SEED)), timeout=300, check=False, workers=1)
        for p in r.printed:
            if isinstance(p, str) and p.startswith("SCN "): s[p[4:]] = 1
    if not s: raise common.TLCError("MuxModel produced no behaviour\n" + r.out[-3000:])
    return [json.loads(x) for x in s]

def c23(out):
    v6 = have_ipv6()
    k = 5 if THOROUGH else 1
    hs = mux_model(out, 800 * k)
    random.Random(SEED).shuffle(hs)
    jobs = [(b, h, SEED * 1009 + i, v6) for i, h in enumerate(hs[:300 * k]) for b in ("posix", "generic")]
    hist = [(b, SEED * 4001 + i, v6) for i in range(300 * k) for b in ("posix", "generic")]
    for what, tr in (("model_behaviours", P(pinned(mux_replay), jobs)), ("histories", P(pinned(mux_history), hist))):
        bads, r = common.validate("MuxTrace", tr)
        out.add(what, len(tr)); out.add("events", sum(len(t["ev"]) for t in tr)); out.add("contract_states", r.distinct)
        out.take(bads, tr)
    out.coverage.update(evaluations=out.coverage["events"], distinct_nontrivial=len(jobs) + len(hist), rule="a recorded execution in which datagrams were sent to registered sockets of a real multiplexor",
                        samples=[dict(backend=b, behaviour=h[:12]) for b, h, _, _ in jobs[:2]], ipv6=v6)
    out.assumptions = ["the loopback interface neither loses nor reorders datagrams sent from one processor", "6 s without progress count as never"]

# ---------------------------------------------------------------- C24: the engine
HOSTS4 = ["10.0.0.1", "10.0.0.2", "127.0.0.1", "255.255.255.255", "192.168.7.9"]
HOSTS6 = ["::1", "2001:db8::1", "fe80::5", "2001:db8:0:0:0:0:0:2"]
OTHER = ["localhost", "10.0.0", "1.2.3.4.5", "10.0.0.256", "10.0.0.1 ", "2001:db8::g", "10.0.0.1:161", "[::1]", "-1", "10.0.0.1\x00", "::1%"]
NOPORT = -1000000
class Names:
    """Texts and octet strings as numbers, 0 for none."""
    def __init__(self): self.d = {}
    def __call__(self, x): return 0 if x is None else self.d.setdefault(x, len(self.d) + 1)

def address(g, dom, local, used):
    """-> (argument for Engine.Manager, the same as the specification sees it)"""
    x = g.random()
    def text():
        y = g.random()
        if y < 0.94: h = g.choice(HOSTS6 if dom == 6 else HOSTS4)
        elif y < 0.955: h = g.choice(HOSTS4 if dom == 6 else HOSTS6)
        elif y < 0.975: return g.choice(OTHER), "other"
        elif y < 0.99: return "", "empty"
        else: return g.choice([5, b"10.0.0.1", None, 1.5]), "notext"
        return h, "v6" if ":" in h else "v4"
    if local and used and x < 0.45: return g.choice(used)
    if local and x < 0.6: return None, dict(form="none", host="", kind="none", port=0)
    if x < (0.61 if local else 0.02):
        j = g.choice([(), ("10.0.0.1",), ("10.0.0.1", 161, 0), 161, ["10.0.0.1", 161], b"10.0.0.1", {"a": 1}, 3.5, object()])
        return j, dict(form="junk", host="", kind="none", port=0)
    h, kind = text()
    if x < (0.7 if local else 0.3) and h is not None: return h, dict(form="host" if kind != "notext" else "junk", host=h if kind in ("v4", "v6") else "", kind=kind, port=0)
    port = g.choice([161, 162, 1, 65535, 5000, 5001, 0 if local else 99, 0 if local else 1161, 40161] if g.random() < 0.94 else [0, -1, 65536, 1 << 40, "161", None])
    return (h, port), dict(form="pair", host=h if kind in ("v4", "v6") else "", kind=kind, port=NOPORT if not isinstance(port, int) else max(-5, min(port, 1 << 20)))

def outcome(e):
    return "refused" if isinstance(e, (ValueError, TypeError)) else type(e).__name__

class Agent:
    """Answers every request of an SNMP manager properly; each namespace has a remote engine of its own."""
    def __init__(self, usm): self.usm = usm
    @staticmethod
    def engine(ns): return b"\x80\x00\x1f\x88\x04agent-" + ns.encode()
    def __call__(self, data, clock, ns):
        engine = self.engine(ns)
        import agent as A
        try: f = A.parse(data, self.usm)
        except (A.Bad, ValueError, IndexError, TypeError): return None
        if f["ver"] != 3:
            return A.community_msg(f["ver"], f["comm"], A.epdu("response", f["pdu"]["rid"], 0, 0, [(o, A.eint(7)) for o, _ in f["pdu"]["vbs"]]))
        if f["engine"] != engine:
            rid = f["scoped"]["pdu"]["rid"] if f["scoped"] else 0
            return A.v3_msg(f["msgid"], 0, engine, 3, clock, b"", A.scoped(engine, b"", A.epdu("report", rid, 0, 0, [(A.report_oid("engine"), A.counter_value(1))])))
        s = f["scoped"]
        if s is None: return None
        return A.v3_msg(f["msgid"], f["flags"] & 3, engine, 3, clock, f["user"],
                        A.scoped(engine, s["cn"], A.epdu("response", s["pdu"]["rid"], 0, 0, [(o, A.eint(7)) for o, _ in s["pdu"]["vbs"]])), self.usm.get(f["user"]))

NSS = ["", "lab", "x"]
UNAMES = ["alice", "bob", "carol", "dave"]
def user_args(cap):
    import snmp.security.usm.auth as A, snmp.security.usm.priv as V
    if cap == 0: return {}
    d = dict(authProtocol=A.HmacSha, authSecret=b"authsecret-" * 8)
    if cap == 2: d.update(privProtocol=V.AesCfb128, privSecret=b"privsecret-" * 8)
    return d
def user_cred(cap):
    import agent as A
    return A.Cred("sha1" if cap else None, b"authsecret-" * 8 if cap else None, "aes" if cap == 2 else None, b"privsecret-" * 8 if cap == 2 else None)

class Eng:
    """What both worlds have in common: an engine, its users, and calls of Engine.Manager."""
    def __init__(self, g):
        from snmp.message.version import ProtocolVersion as V
        from snmp.transport import TransportDomain as D
        self.g, self.ev, self.comms, self.unames, self.engs = g, [], Names(), Names(), Names()
        self.V, self.D = V, D
        self.usm, self.caps, self.mgrs, self.used = {}, {}, [], []
        for n in UNAMES: self.unames(n)
        self.d = dict(ver=g.choice([3, 3, 2, 1]), dom=g.choice([4, 4, 6]), comm=self.comms(b"" if g.random() < 0.4 else b"dflt"), auto=g.random() < 0.6)
    def log(self, k, **f):
        f["k"] = k; self.ev.append(f); return f
    def engine_args(self):
        d, a = self.d, {}
        if d["ver"] != 3 or self.g.random() < 0.5: a["defaultVersion"] = self.version(d["ver"])
        if d["dom"] != 4 or self.g.random() < 0.5: a["defaultDomain"] = self.domain(d["dom"])
        if d["comm"] != self.comms(b""): a["defaultCommunity"] = b"dflt"
        if not d["auto"] or self.g.random() < 0.5: a["autowait"] = d["auto"]
        return a
    def version(self, v): return {1: self.V.SNMPv1, 2: self.V.SNMPv2c, 3: self.V.SNMPv3}[v]
    def domain(self, d): return self.D.UDP_IPv4 if d == 4 else self.D.UDP_IPv6
    def add_user(self):
        g = self.g
        ns, n = g.choice(NSS), g.choice(UNAMES)
        if (ns, n) in self.caps: return
        # a user has the same secrets everywhere, so that the agent can answer
        cap = next((c for (s, m), c in self.caps.items() if m == n), g.choice([0, 1, 2, 2]))
        lvl = g.choice([None, None] + list(range(cap + 1)))
        kw = user_args(cap)
        if lvl is not None: kw["defaultSecurityLevel"] = LEVELS()[lvl]
        df = g.random() < 0.25
        if df: kw["default"] = True
        if ns or g.random() < 0.5: kw["namespace"] = ns
        try: self.e.usm.addUser(n, **kw); out = "ok"
        except Exception as e: out = type(e).__name__
        self.caps[ns, n] = cap
        self.usm[n.encode()] = user_cred(cap)
        self.log("user", ns=NSS.index(ns) + 1, user=self.unames(n), lvl=cap if lvl is None else lvl, out=out, **{"def": df})
    def pick(self, hostile=0.06):
        """Arguments of a call, and the call as the specification sees it."""
        g = self.g
        f, kw = {}, {}
        x = g.random()
        f["dom"] = 0 if x < 0.5 else 9 if x < 0.5 + hostile / 2 else g.choice([4, 4, 6])
        if f["dom"] == 9: kw["domain"] = g.choice(["udp", 4, -1, object(), "UDP_IPv4", []])
        elif f["dom"]: kw["domain"] = self.domain(f["dom"])
        dom = f["dom"] if f["dom"] in (4, 6) else self.d["dom"]
        x = g.random()
        f["ver"] = 0 if x < 0.4 else 9 if x < 0.4 + hostile / 2 else g.choice([1, 2, 3, 3])
        if f["ver"] == 9: kw["version"] = g.choice([2, 7, -1, "3", "SNMPv3", object(), 1.5])
        elif f["ver"]: kw["version"] = g.choice([self.version(f["ver"]), int(self.version(f["ver"]))])
        ver = f["ver"] or self.d["ver"]
        f.update(comm=0, user=0, lvl=-1, ns=1, sm=0, eng=0)
        if ver in (1, 2) and g.random() < 0.6:
            c = g.choice([b"public", b"", b"x" * 40]); kw["community"] = c; f["comm"] = self.comms(c)
        if ver in (3, 9):
            ns = g.choice(NSS)
            if ns or g.random() < 0.3: kw["namespace"] = ns
            f["ns"] = NSS.index(ns) + 1
            if g.random() < 0.4:
                n = g.choice(UNAMES); kw["defaultUserName"] = n; f["user"] = self.unames(n)
            known = kw.get("defaultUserName")
            cap = self.caps.get((ns, known)) if known else None
            if cap is not None and g.random() < 0.6: f["lvl"] = g.randint(0, cap); kw["defaultSecurityLevel"] = LEVELS()[f["lvl"]]
            x = g.random()
            if x < hostile: f["sm"] = 9; kw["securityModel"] = g.choice([1, 2, 4, "usm", -3])
            elif x < 0.4:
                from snmp.security import SecurityModel
                f["sm"] = 3; kw["securityModel"] = g.choice([3, SecurityModel.USM])
            if g.random() < 0.5: kw["engineID"] = self.agent.engine(ns); f["eng"] = self.engs(kw["engineID"])
        f["auto"] = g.choice([-1, -1, 0, 1])
        if f["auto"] != -1: kw["autowait"] = bool(f["auto"])
        return dom, f, kw
    def trace(self): return dict(ev=self.ev, d=self.d, nn=len(NSS), nu=len(UNAMES))
def LEVELS():
    from snmp.security.levels import noAuthNoPriv, authNoPriv, authPriv
    return (noAuthNoPriv, authNoPriv, authPriv)
CLS = {"SNMPv1Manager": 1, "SNMPv2cManager": 2, "SNMPv3UsmManager": 3}

class SimEng(Eng):
    """In the simulated world every socket, binding and datagram can be seen."""
    def __init__(self, w, g):
        super().__init__(g)
        import snmp.engine
        self.w = w
        w.on_send = self.on_send
        self.agent = Agent(self.usm)
        self.e = snmp.engine.Engine(**self.engine_args())
        self.sids, self.cur, self.nsent, self.respond = {}, None, 0, True
    def fam(self, s): return 6 if s.fam == socket.AF_INET6 else 4
    def sid(self, s): return self.sids.setdefault(id(s), len(self.sids) + 1)
    def manager(self):
        dom, f, kw = self.pick()
        a, fa = address(self.g, dom, False, [])
        l, fl = address(self.g, dom, True, self.used)
        before = len(self.w.sockets)
        m = None
        if l is not None or self.g.random() < 0.3: kw["localAddress"] = l
        try: m = self.e.Manager(a, **kw); out = "ok"
        except Exception as e: out = outcome(e)
        made = []
        for s in self.w.sockets[before:]:
            if s.addr is None: continue
            made.append(dict(dom=self.fam(s), host=s.addr[0], port=0 if s.addr[1] == 40000 + s.no else s.addr[1], id=self.sid(s)))
        self.log("manager", addr=fa, laddr=fl, made=made, bindable=True, real=False, out=out, cls=CLS.get(type(m).__name__, 0), **f)
        self.mgrs.append(m)
        if out == "ok" and l is not None: self.used.append((l, fl))
    def on_send(self, sock, data, addr):
        import agent as A
        self.nsent += 1
        f = A.parse(data, self.usm)
        d = dict(m=self.cur, sock=self.sid(sock), host=addr[0], port=addr[1], ver={0: 1, 1: 2, 3: 3}[f["ver"]], probe=False, comm=0, user=0, lvl=0, eng=0)
        if f["ver"] != 3: d["comm"] = self.comms(f["comm"])
        else: d.update(probe=f["engine"] == b"" and f["user"] == b"", user=self.unames(f["user"].decode()), lvl=2 if f["priv"] else 1 if f["auth"] else 0, eng=self.engs(f["engine"]))
        self.log("send", **d)
        if self.respond:
            r = self.agent(data, 100 + self.w.ticks() // 1024, getattr(self.mgrs[self.cur - 1], "namespace", ""))
            if r is not None: self.w.at(self.w.ticks() + 3, lambda: self.w.mux.listener.hear(next(t for t in self.w.mux.transports if t.socket is sock), addr, r))
    def call(self, m):
        g = self.g
        M = self.mgrs[m - 1]
        self.cur, n0 = m, self.nsent
        self.respond = True
        fn = g.choice(["get", "getNext", "set"])
        from snmp.smi import Integer32
        args = [("1.3.6.1.2.1.%d.0" % g.randint(1, 9), Integer32(1))] if fn == "set" else ["1.3.6.1.2.1.%d.0" % g.randint(1, 9)]
        exc, waited, h = "", False, None
        try:
            x = getattr(M, fn)(*args, timeout=4.0)
            waited = not hasattr(x, "wait")
            if not waited: x.wait()
        except Exception as e: exc = type(e).__name__
        self.log("call", m=m, exc=exc, waited=waited, sent=self.nsent > n0)
        self.cur = None

def sim_engine(seed):
    import sim
    g = random.Random(seed)
    with sim.SeqWorld() as w:
        r = SimEng(w, g)
        for _ in range(g.choice([0, 2, 4, 6, 9])): r.add_user()
        for _ in range(g.randint(3, 16)):
            if g.random() < 0.15: r.add_user()
            r.manager()
            live = [i + 1 for i, m in enumerate(r.mgrs) if m is not None]
            for _ in range(g.choice([1, 1, 2, 3])):
                if live: r.call(g.choice(live[-3:] + [g.choice(live)]))
        exc = lost = ""
        try: r.e.shutdown()
        except Exception as e: exc = type(e).__name__
        r.log("shutdown", exc=exc, lost=False)
        r.log("after", threads=0, socks=sum(1 for s in w.sockets if not s.closed and s.addr is not None))
        return r.trace()

class RealAgent(threading.Thread):
    """UDP agents on loopback, one per (domain, namespace); answers may be held back until released."""
    def __init__(self, usm, v6):
        super().__init__(daemon=True)
        self.answer, self.lock = Agent(usm), threading.Lock()
        self.socks, self.seen, self.held, self.hold, self.over = {}, [], [], False, False
        for dom in ((4, 6) if v6 else (4,)):
            for ns in NSS:
                s = socket.socket(socket.AF_INET6 if dom == 6 else socket.AF_INET, socket.SOCK_DGRAM)
                s.bind(("::1" if dom == 6 else "127.0.0.1", 0)); s.settimeout(0.2)
                self.socks[dom, ns] = s
        self.r, self.w = os.pipe()
        self.start()
    def run(self):
        import select
        fd = {s.fileno(): (k, s) for k, s in self.socks.items()}
        while True:
            for f in select.select(list(fd) + [self.r], [], [])[0]:
                if f == self.r: return
                (dom, ns), s = fd[f]
                try: data, src = s.recvfrom(65535)
                except OSError: continue
                r = self.answer(data, int(time.monotonic()) % 100000, ns)
                with self.lock:
                    self.seen.append(src[:2])
                    if r is None: continue
                    if self.hold: self.held.append((s, r, src)); continue
                s.sendto(r, src)
    def release(self):
        with self.lock:
            self.hold = False
            for s, r, src in self.held: s.sendto(r, src)
            self.held = []
    def close(self):
        os.write(self.w, b"x"); self.join()
        os.close(self.r); os.close(self.w)
        for s in self.socks.values(): s.close()

def sockets_of_process():
    out = set()
    for f in os.listdir("/proc/self/fd"):
        try: l = os.readlink("/proc/self/fd/" + f)
        except OSError: continue
        if l.startswith("socket:"): out.add(l)
    return out

class Boom(Exception): pass
class Stop(Exception): pass
class RealEng(Eng):
    """Real sockets, real threads."""
    WAIT = 8.0
    def __init__(self, g, backend, v6):
        super().__init__(g)
        import snmp.engine, snmp.transport.udp as U, importlib
        self.v6 = v6
        if not v6: self.d["dom"] = 4
        mod = importlib.import_module("snmp.transport.%s.udp" % backend)
        self.died = []
        threading.excepthook = lambda a: self.died.append(a.exc_type.__name__)
        self.net = RealAgent(self.usm, v6)
        self.agent = self.net.answer
        self.ports = []
        self.taken = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        self.taken.bind(("127.0.0.1", 0))
        self.threads0, self.socks0 = set(threading.enumerate()), sockets_of_process()
        common_replace(U.UdpMultiplexor, mod.UdpMultiplexor)
        self.srcs = {}
        self.e = self.guard(lambda: snmp.engine.Engine(**self.engine_args()))
        self.held = []
    def guard(self, fn):
        """fn() in a thread of its own: it must come to an end."""
        box = []
        def body():
            try: box.append((True, fn()))
            except BaseException as e: box.append((False, e))
        t = threading.Thread(target=body, daemon=True)
        t.start(); t.join(self.WAIT)
        if t.is_alive(): self.log("hang"); slow[0] += 1; raise Stop()
        t.join()
        ok, x = box[0]
        if ok: return x
        raise x
    def free_port(self, host, fam):
        # (outside the range from which the kernel serves port 0)
        while True:
            p = 10000 + (os.getpid() * 7919 + int(time.monotonic() * 1e6)) % 20000
            s = socket.socket(fam, socket.SOCK_DGRAM)
            try:
                s.bind(("::" if fam == socket.AF_INET6 else "0.0.0.0", p)); return p
            except OSError: pass
            finally: s.close()
    def manager(self):
        g = self.g
        dom, f, kw = self.pick(0.04)
        if dom == 6 and not self.v6: return
        if f["ver"] == 9 or f["dom"] == 9: ns = ""
        else: ns = kw.get("namespace", "")
        bindable, any_, lo = True, "::" if dom == 6 else "0.0.0.0", "::1" if dom == 6 else "127.0.0.1"
        to = self.net.socks[dom, ns].getsockname()[:2]
        a, fa = to, dict(form="pair", host=to[0], kind="v6" if dom == 6 else "v4", port=to[1])
        if g.random() < 0.08: a, fa = address(g, dom, False, [])
        fl = dict(form="none", host="", kind="none", port=0)
        x = g.random()
        mine = [u for u in self.used if u[2] == dom]
        if x < 0.35: l = None
        elif x < 0.6 and mine: l, fl, _ = g.choice(mine)
        elif x < 0.68 and dom == 4: l, bindable = self.taken.getsockname(), False
        elif x < 0.72: l, bindable = ("2001:db8::77" if dom == 6 else "198.51.100.7", 0), False
        else: l = (g.choice([lo, any_, "", lo]), g.choice([0, self.free_port(lo, socket.AF_INET6 if dom == 6 else socket.AF_INET)]))
        if l is not None and fl["form"] == "none": fl = dict(form="pair", host=l[0], kind="empty" if l[0] == "" else "v6" if dom == 6 else "v4", port=l[1])
        # two sockets of this engine cannot have the same port
        if l is not None and bindable and l[1]:
            for (k, kh) in [(u[0], u) for u in self.used]:
                if k[1] == l[1] and u_key(k, any_) != u_key(l, any_): bindable = False
        if l is not None or g.random() < 0.3: kw["localAddress"] = l
        m = None
        try: m = self.guard(lambda: self.e.Manager(a, **kw)); out = "ok"
        except Stop: raise
        except Exception as e: out = outcome(e)
        self.log("manager", addr=fa, laddr=fl, made=[], bindable=bindable, real=True, out=out, cls=CLS.get(type(m).__name__, 0), **f)
        self.mgrs.append(m if a == to else None)
        if out == "ok" and bindable and l is not None: self.used.append((l, fl, dom))
    def ask(self, m):
        with self.net.lock: self.net.seen = []
        return getattr(self.mgrs[m - 1], self.g.choice(["get", "getNext"]))("1.3.6.1.2.1.1.%d.0" % self.g.randint(1, 9), wait=False, timeout=6.0, refreshPeriod=2.0)
    def source(self):
        t = time.monotonic()
        while time.monotonic() - t < 3:
            with self.net.lock:
                if self.net.seen: return self.net.seen[-1]
            time.sleep(0.0005)
        return None
    def result(self, m, h, src):
        try: self.guard(h.wait); ok = True
        except Stop: raise
        except Exception as e: ok = False; self.why = repr(e); slow[0] += 1
        self.log("result", m=m, ok=ok, src=0 if src is None else self.srcs.setdefault(src, len(self.srcs) + 1), sport=0 if src is None else src[1])
    def live(self): return [i + 1 for i, m in enumerate(self.mgrs) if m is not None]
    def step(self):
        g = self.g
        x = g.random()
        if x < 0.1: self.add_user()
        elif x < 0.5: self.manager()
        elif x < 0.75 and self.live():
            m = g.choice(self.live())
            try: h = self.guard(lambda: self.ask(m))
            except Stop: raise
            except Exception: self.log("result", m=m, ok=False, src=0, sport=0); return
            self.result(m, h, self.source())
        elif self.live():
            # answers arrive after, or while, further managers are created
            self.net.hold = True
            hs = []
            for m in g.sample(self.live(), min(len(self.live()), g.randint(1, 3))):
                try: hs.append((m, self.guard(lambda: self.ask(m)), self.source()))
                except Stop: raise
                except Exception: self.log("result", m=m, ok=False, src=0, sport=0)
            t = None
            if g.random() < 0.5:
                t = threading.Timer(g.choice([0, 0.001, 0.003]), self.net.release); t.start()
            for _ in range(g.choice([1, 1, 2, 5])): self.manager()
            if t is not None: t.join()
            self.net.release()
            for m, h, src in hs: self.result(m, h, src)
    def finish(self):
        g = self.g
        how = g.choice(["shutdown", "with", "raise", "twice", "with-shutdown", "pending"])
        h = None
        if how == "pending" and self.live():
            self.net.hold = True
            try: h = self.guard(lambda: self.ask(g.choice(self.live())))
            except Stop: raise
            except Exception: pass
        def end():
            if how in ("with", "raise", "with-shutdown"):
                with self.e:
                    if how == "with-shutdown": self.e.shutdown()
                    if how == "raise": raise Boom()
            else:
                self.e.shutdown()
                if how == "twice": self.e.shutdown()
        exc, lost = "", how == "raise"
        try: self.guard(end)
        except Stop: raise
        except Boom: lost = False
        except BaseException as e: exc = type(e).__name__
        left = [t for t in set(threading.enumerate()) - self.threads0 if t.is_alive() and not isinstance(t, threading.Timer)]
        self.log("shutdown", exc=exc, lost=lost)
        if self.died: self.log("thread", exc=self.died[0])
        self.log("after", threads=len(left), socks=len(sockets_of_process() - self.socks0))
        if how != "raise" and g.random() < 0.2:
            try: self.guard(self.e.shutdown); exc = ""
            except Stop: raise
            except Exception as e: exc = type(e).__name__
            self.log("shutdown", exc=exc, lost=False)
        del h
    def close(self):
        self.net.close(); self.taken.close()

def u_key(k, any_): return (k[0] or any_, k[1])
def common_replace(real, fake):
    for name, mod in list(sys.modules.items()):
        if name == "snmp" or name.startswith("snmp."):
            for k, v in list(vars(mod).items()):
                if v is real or getattr(v, "__name__", "") in ("PosixUdpMultiplexor", "GenericUdpMultiplexor") and k == "UdpMultiplexor" and not name.endswith(("posix.udp", "generic.udp")): setattr(mod, k, fake)

def real_engine(job):
    backend, seed, v6 = job
    g = random.Random(seed)
    r = RealEng(g, backend, v6)
    try:
        for _ in range(g.choice([0, 2, 4, 6, 9])): r.add_user()
        for _ in range(g.choice([0, 1, 2, 4, 8, 12])): r.step()
        r.finish()
        r.close()
    except Stop: pass
    return r.trace()

def c24(out):
    import sim
    k = 5 if THOROUGH else 1
    v6 = have_ipv6()
    jobs = [(b, SEED * 7001 + i, v6) for i in range(250 * k) for b in ("posix", "generic")]
    real = P(pinned(real_engine), jobs)                 # (before the simulated world replaces the library's primitives)
    sim.install()
    simulated = P(sim_engine, [SEED * 6007 + i for i in range(1500 * k)])
    for what, tr in (("simulated_engines", simulated), ("real_engines", real)):
        bads, r = common.validate("EngineLifeTrace", tr)
        out.add(what, len(tr)); out.add("events", sum(len(t["ev"]) for t in tr)); out.add("contract_states", r.distinct)
        out.take(bads, tr)
    out.coverage.update(evaluations=out.coverage["events"], distinct_nontrivial=0, rule="", samples=[])
    out.coverage.update(distinct_nontrivial=sum(1 for t in simulated + real if sum(1 for e in t["ev"] if e["k"] == "manager" and e["out"] == "ok") > 1),
                        rule="an engine that made at least two managers", samples=simulated[0]["ev"][:6] + real[0]["ev"][:6], ipv6=v6,
                        managers=sum(1 for t in simulated + real for e in t["ev"] if e["k"] == "manager" and e["out"] == "ok"),
                        refused=sum(1 for t in simulated + real for e in t["ev"] if e["k"] == "manager" and e["out"] == "refused"))
    out.assumptions = ["8 s without progress count as a hang", "the loopback interface does not lose datagrams"]

# ---------------------------------------------------------------- C25: hostile datagrams
def nodes(b):
    """Every TLV of a datagram, descending into constructed ones and octet strings that look like one: (start, body, end, depth)."""
    import agent as A
    out = []
    def walk(i, end, depth):
        while i < end and len(out) < 200:
            try: t, s, e = A.tlv(b, i, end)
            except A.Bad: return
            if e > end: return
            out.append((i, s, e, depth))
            if t & 0x20: walk(s, e, depth + 1)
            elif t == 4 and e - s > 2 and b[s] == 0x30:
                try:
                    if A.tlv(b, s, e)[2] == e: walk(s, e, depth + 1)
                except A.Bad: pass
            i = e
    walk(0, len(b), 0)
    return out
def rebuild(b, lo, hi, new):
    """Replace b[lo:hi], and correct the lengths of everything around it."""
    import agent as A
    out = new
    for s, body, e, _ in sorted((n for n in nodes(b) if n[1] <= lo and hi <= n[2] and (n[1], n[2]) != (lo, hi) or n[1] == lo and n[2] == hi), key=lambda n: n[2] - n[0]):
        if s <= lo and hi <= e and s != lo: out = A.T(b[s], b[body:lo] + out + b[hi:e]); lo, hi = s, e
    return b[:lo] + out + b[hi:]
INTS = [0, 1, -1, 127, 128, 255, 256, 2**31 - 1, 2**31, 2**32 - 1, 2**32, -2**31, -2**31 - 1, 2**63, -2**63, 2**64, 1 << 200]
def mutate(g, b):
    """A neighbour of a datagram: one to three changes of structure, lengths still in order more often than not."""
    import agent as A
    b = bytes(b)
    for _ in range(g.choice([1, 1, 1, 2, 3])):
        ns = nodes(b)
        if not ns: return b
        s, body, e, d = g.choice(ns)
        x = g.random()
        if x < 0.14: b = b[:s] + bytes([g.choice([b[s] ^ (1 << g.randrange(8)), g.randrange(256), 5, 2, 4, 6, 0x30, 0x40, 0x41, 0x43, 0x46, 0xa2, 0xa8, 0x80, 0x81, 0x82])]) + b[s + 1:]
        elif x < 0.24: b = b[:s + 1] + bytes([g.choice([b[s + 1] + 1 & 255, b[s + 1] - 1 & 255, 0, 0x80, 0x81, 0x84, 0xff, 0x7f])]) + b[s + 2:]
        elif x < 0.42: b = rebuild(b, s, e, A.eint(g.choice(INTS), b[s] if b[s] in (2, 0x41, 0x42, 0x43, 0x46) else 2))
        elif x < 0.50: b = rebuild(b, s, e, A.T(b[s], bytes(g.randrange(256) for _ in range(g.choice([0, 0, 1, 2, 5, 9, 33])))))
        elif x < 0.56: b = rebuild(b, s, e, b"")
        elif x < 0.62: b = rebuild(b, s, e, b[s:e] * g.choice([2, 2, 3, 20]))
        elif x < 0.68: t, _, u, _ = g.choice(ns); b = rebuild(b, s, e, b[t:u])
        elif x < 0.72: b = rebuild(b, s, e, A.T(b[s], A.T(0x30, b[body:e])))
        elif x < 0.76: b = rebuild(b, s, e, A.T(6, bytes(g.choice([[0x2b, 0x80], [0xff], [], [0x2b] + [0xff] * 12 + [0x7f], [0x2b, 6, 1, 6, 3, 15, 1, 1], [0x2b] * 140]))))
        elif x < 0.80:
            for _ in range(g.choice([3, 40])): b = rebuild(b, 0, len(b), A.T(0x30, b)) if len(b) < 2000 else b
        elif x < 0.90:
            i = g.randrange(len(b)); b = b[:i] + bytes([b[i] ^ (1 << g.randrange(8))]) + b[i + 1:]
        elif x < 0.95: b = b[:g.randrange(len(b))]
        else: b = b + bytes(g.randrange(256) for _ in range(g.choice([1, 4, 300])))
        if len(b) > 60000 or not b: break
    return b[:65507]

class Mixed:
    """One engine with managers of every version, each with its agent; mutated and foreign datagrams all the time."""
    def __init__(self, w, g, flood, lat=(0, 1, 100, 300)):
        import fam_v3, fam_req, drv, agent as A
        self.v3, self.rq, self.drv, self.A = fam_v3, fam_req, drv, A
        self.w, self.g, self.flood, self.lat = w, g, flood, lat
        random.seed(g.random())
        self.run = run = drv.Run(w, True, False)
        run.rng = g
        run.new_engine(autowait=False)
        for name, cap, a, p in fam_v3.USERS: run.add_user(name, cap, a, p)
        run.uid(b"nobody")
        for x in fam_v3.ENG: run.eid(x)
        self.peers, self.vers = {}, []
        for m in range(1, g.choice([2, 3, 3, 4]) + 1):
            v = g.choice([1, 2, 3, 3]) if m > 1 else 3
            addr = ("10.0.0.%d" % m, 161)
            if v == 3:
                eng = fam_v3.ENG[m % 2]
                kw = dict(engineID=eng) if g.random() < 0.4 else {}
                run.manager(3, addr, defaultUserName=fam_v3.USERS[g.randrange(4)][0].decode(), **kw)
                self.peers[addr] = fam_v3.Peer(run, addr, eng, boots=g.choice([0, 1, 3, 2**31 - 3]), base=g.choice([0, 5, 1000, 100000]))
            else: run.manager(v, addr, fam_req.COMM[m])
            self.vers.append(v)
        self.loss = g.choice([0, 0.2, 0.5])
        run.after_send = self.on_send
    def genuine(self, f, raw, addr):
        if raw["ver"] == 3:
            p = self.peers.get(addr)
            return p.answer(raw) if p else None
        return self.A.community_msg(raw["ver"], raw["comm"], self.A.epdu("response", raw["pdu"]["rid"], 0, 0, [(o, self.A.eint(self.g.randrange(1000))) for o, _ in raw["pdu"]["vbs"]]))
    def on_send(self, f, raw, addr):
        g = self.g
        if g.random() >= self.loss: self.at(g.choice(self.lat), lambda: (self.genuine(f, raw, addr), "yes", addr))
        for _ in range(g.choice(self.flood)): self.at(g.choice(self.lat), lambda: self.evil(f, raw, addr))
    def at(self, dt, fn):
        def go():
            x = fn()
            if x is not None and x[0] is not None: self.run.hear(x[0], mut=x[1], addr=x[2])
        self.w.at(int(self.w.now) + dt, go)
    def evil(self, f, raw, addr):
        """A datagram that has something, or nothing, to do with message f."""
        g = self.g
        x = g.random()
        try:
            if x < 0.15 and raw["ver"] == 3 and addr in self.peers:
                y = self.v3.craft(self.run, g, self.peers[addr], (f, raw), self.v3.any_kind(g, 1.0))
                return (y[0], y[1], addr) if y else None
            if x < 0.25 and raw["ver"] != 3:
                r = self.run.owner(f, raw)
                y = self.rq.make(self.run, g.choice(self.rq.BADK), r) if r else None
                return (y[0], y[1], addr) if y else None
        except (KeyError, IndexError, TypeError): return None
        if x < 0.35: return bytes(g.randrange(256) for _ in range(g.choice([0, 1, 2, 5, 40, 1472, 9000]))), "no", addr
        if x < 0.85: base = self.genuine(f, raw, addr)
        else:
            s = [y for y in self.run.sends if y[1] is not None]
            base = self.genuine(*g.choice(s)[:2], addr) if s and g.random() < 0.7 else self.A.community_msg(g.randrange(4), b"public", self.A.epdu("response", 1, 0, 0, []))
        if base is None: return None
        m = mutate(g, base)
        if m == base: return None
        # (lenient readings of malformed BER are not this property's business: such datagrams are left out)
        try: self.A.parse(m, self.run.usm); return m, "maybe", addr
        except (self.A.Bad, ValueError, IndexError, TypeError): return (m, "no", addr) if not lenient(m) else None
    def shot(self):
        s = [y for y in self.run.sends if y[1] is not None]
        if not s: return
        f, raw, _, addr = self.g.choice(s[-6:])
        x = self.evil(f, raw, addr)
        if x is not None: self.run.hear(x[0], mut=x[1], addr=x[2])

def lenient(b):
    """Does the code under test, read alone, make a message of octets that the agent's reader rejects?"""
    from snmp.message import Message
    from snmp.message.v3 import SNMPv3Message
    for c in (Message, SNMPv3Message):
        try: c.decode(b); return True
        except Exception: pass
    return False

def mixed(job):
    import sim, drv
    seed, flood = job
    g = random.Random(seed)
    with sim.SeqWorld() as w:
        s = Mixed(w, g, flood)
        run = s.run
        try:
            for _ in range(g.randint(4, 12)):
                open_ = [r for r in range(1, len(run.h)) if not run.rinfo[r].get("over")]
                x = g.random()
                if x < 0.5 and len(open_) < 6:
                    m = g.randint(1, len(s.vers)); v = s.vers[m - 1]
                    r = len(run.h)
                    kw = {}
                    if v == 3: u = g.randrange(len(s.v3.USERS)); kw = dict(user=s.v3.USERS[u][0], lvl=g.randint(0, s.v3.USERS[u][1]))
                    run.req(m, g.choice(["get", "next"]), s.v3.oids(r, g.choice([1, 2])), auto=g.random() < 0.3, T=g.choice([512, 1024, 2048, 4096]), P=g.choice([100, 256, 512, 1000]), **kw)
                elif x < 0.75 and open_: run.wait(g.choice(open_))
                elif x < 0.8 and open_: run.drop(g.choice(open_))
                elif x < 0.9: run.advance(g.choice([0, 1, 100, 256, 512, 1000, 160 * 1024]))
                else:
                    for _ in range(g.choice([1, 10])): s.shot()
            # after all of it, a fresh request to every agent must still be answered
            s.loss, s.flood = 0, (0,)
            run.advance(200 * 1024)
            for r in range(1, len(run.h)):
                if not run.rinfo[r].get("over"): run.wait(r)
            for m, v in enumerate(s.vers, 1):
                kw = {}
                if v == 3: u = g.randrange(len(s.v3.USERS)); kw = dict(user=s.v3.USERS[u][0], lvl=g.randint(0, s.v3.USERS[u][1]))
                run.req(m, "get", s.v3.oids(len(run.h)), auto=True, T=8192, P=1024, **kw)
        except drv.Stop: pass
        return run.trace()

def project(t, v3):
    """The part of a mixed execution that concerns one contract; managers and requests renumbered."""
    ms, rs, ev = {}, {}, []
    n = 0
    for e in t["ev"]:
        k = e["k"]
        if k == "mgr":
            if v3: ms[e["m"]] = len(ms) + 1; ev.append(dict(e, m=ms[e["m"]]))
        elif k == "req":
            n += 1
            if (e["ver"] == 3) == v3:
                rs[e["r"]] = len(rs) + 1
                ev.append(dict(e, r=rs[e["r"]], m=ms.setdefault(e["m"], len(ms) + 1) if not v3 else ms[e["m"]]))
        elif k in ("reqend", "wait", "waitend", "drop", "gone"):
            if e["r"] in rs: ev.append(dict(e, r=rs[e["r"]]))
        elif k == "send":
            if (e["ver"] == 3) == v3: ev.append(e)
        elif k == "hang": ev.append(dict(e, r=rs.get(e["r"], 0)))
        elif k in ("adv", "dlv", "dlvend"): ev.append(e)
        elif v3: ev.append(e)
    return dict(t, ev=ev)

def usm_hostile(job):
    import fam_usm
    return fam_usm.tamper(*job)

def real_flood(job):
    """A real engine under a flood of datagrams none of which answers its requests."""
    backend, seed, v6 = job
    g = random.Random(seed)
    r = RealEng(g, backend, v6)
    import agent as A
    evil = [socket.socket(socket.AF_INET, socket.SOCK_DGRAM)] + ([socket.socket(socket.AF_INET6, socket.SOCK_DGRAM)] if v6 else [])
    r.socks0 |= sockets_of_process()
    def garbage():
        x = g.random()
        rid = g.randrange(-2**31, 2**31)
        pdu = A.epdu(g.choice(["response", "response", "report", "get", "trap"]), rid, g.choice([0, 0, 5, 99]), 0, [((1, 3, 6, 1, 6, 3, 15, 1, 1, g.randint(1, 6), 0), A.counter_value(5))])
        if x < 0.15: return bytes(g.randrange(256) for _ in range(g.choice([0, 1, 9, 300, 1472])))
        if x < 0.4: b = A.community_msg(g.choice([0, 1, 1, 2, 3]), b"public", pdu)
        else: b = A.v3_msg(g.randrange(2**31), g.choice([0, 0, 4]), g.choice([b"", r.agent.engine("")]), g.choice([0, 3, 2**31 - 1]), g.choice([0, 2**31 - 1]), g.choice([b"", b"alice", b"bob"]), A.scoped(g.choice([b"", r.agent.engine("")]), b"", pdu))
        return mutate(g, b) if g.random() < 0.7 else b
    def flood(n):
        r.log("flood")
        for port6 in list({(s[1], ":" in s[0]) for s in r.srcs}):
            o = evil[1] if port6[1] and v6 else evil[0]
            for _ in range(n):
                b = garbage()
                if len(b) > 1400: b = b[:1400]
                try: o.sendto(b, ("::1" if port6[1] else "127.0.0.1", port6[0]))
                except OSError: pass
    try:
        for _ in range(g.randint(3, 6)): r.add_user()
        for _ in range(g.choice([2, 4])): r.step()
        for _ in range(3):
            if not r.live(): r.manager(); continue
            m = g.choice(r.live())
            r.net.hold = True
            try: h = r.guard(lambda: r.ask(m)); src = r.source()
            except Stop: raise
            except Exception: r.net.release(); r.log("result", m=m, ok=False, src=0, sport=0); continue
            if src is not None: r.srcs.setdefault(src, len(r.srcs) + 1)
            flood(g.choice([3, 15, 30]))
            r.net.release()
            flood(3)
            r.result(m, h, src)
        flood(5)
        r.finish()
        r.close()
    except Stop: pass
    for o in evil: o.close()
    return r.trace()

def c25(out):
    import sim
    k = 5 if THOROUGH else 1
    v6 = have_ipv6()
    n = 0
    def took(module, what, tr, focus=True):
        nonlocal n
        bads, r = common.validate(module, tr, files={"focus.json": json.dumps([out.prop])} if focus else None)
        out.add(what, len(tr)); out.add("events", sum(len(t["ev"]) for t in tr)); out.add("contract_states", r.distinct)
        out.add("datagrams", sum(1 for t in tr for e in t["ev"] if e["k"] in ("dlv", "in")))
        out.take(bads, tr)
    took("EngineLifeTrace", "real_floods", P(pinned(real_flood), [(b, SEED * 9001 + i, v6) for i in range(100 * k) for b in ("posix", "generic")]), False)
    sim.install()
    import fam_req, fam_v3
    mx = P(mixed, [(SEED * 100003 + i, [(0, 1, 2), (3, 6), (20,)][i % 3]) for i in range(1800 * k)])
    took("V3Trace", "mixed_v3", [project(t, True) for t in mx])
    took("RequestsTrace", "mixed_community", [project(t, False) for t in mx])
    took("V3Trace", "hostile_v3", P(lambda i: fam_v3.history(SEED * 700001 + i, hostile=0.8), range(700 * k)))
    took("RequestsTrace", "hostile_community", P(lambda i: fam_req.history(SEED * 700001 + i, hostile=0.8), range(900 * k)))
    tm = [(ci, l, SEED * 77 + 13 * ci + l) for ci in range(12) for l in (1, 2)]
    import fam_usm
    tm = [x for x in tm if fam_usm.CONFIGS[x[0]].cap >= x[1]]
    took("UsmTrace", "tampered", P(usm_hostile, tm if THOROUGH else tm[SEED % 3::3]))
    if THOROUGH: took("V3Trace", "v3_datagram_matrix", P(lambda x: fam_v3.phase(*x[1], seed=SEED * 31 + x[0]), list(enumerate(fam_v3.matrix()))))
    out.coverage.update(evaluations=out.coverage["datagrams"], distinct_nontrivial=sum(1 for t in mx if any(e["k"] == "dlv" for e in t["ev"])),
                        rule="an execution in which hostile datagrams reached the listener", samples=mx[0]["ev"][:8])
    out.assumptions = ["virtual clock, locks and sockets", "datagrams that the library reads more leniently than BER allows are judged by C01..C04, not here"]

def run(prop):
    lvl = "model_checking"
    out = common.Outcome(prop, lvl)
    {"C23": c23, "C24": c24, "C25": c25}[prop](out)
    return out
