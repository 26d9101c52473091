"""Drives a python-snmp Engine inside a virtual world and records what the application and the network see."""
import gc, random, sys, weakref
import sim, agent
from agent import Bad

def idp(n):
    """An identifier as two 16-bit halves (the upper one signed), so that TLC can hold numbers beyond 32 bits."""
    h = n >> 16
    return [max(-1000000, min(1000000, h)), n & 0xffff]

class Interner:
    def __init__(self): self.d = {}
    def __call__(self, x):
        if x not in self.d: self.d[x] = len(self.d) + 1
        return self.d[x]

class Run:
    def __init__(self, world, strict=True, conc=False):
        self.w, self.ev = world, []
        self.strict, self.conc = strict, conc
        self.dig, self.raws, self.addrs, self.comms, self.socks, self.ivn = (Interner() for _ in range(6))
        self.engines, self.users, self.ctx = {b"": 0}, {b"": 0}, {b"": 0}
        self.usm, self.caps = {}, {}
        self.mgrs, self.minfo = [], []
        self.h, self.rinfo = [None], [None]
        self.sends = []                 # parsed facts of every datagram, in order
        self.dn = 0
        world.on_send = self.on_send
        if isinstance(world, sim.SeqWorld): world.on_adv = self.on_adv
        self.engine = None
        self.hung, self.after_send = False, None
        self.served = False             # every message is answered at once, as the RFCs demand
        self.refs = {}
        self.burst, self.burst_at = 0, -1
    def eid(self, e):
        if e not in self.engines: self.engines[e] = len(self.engines)
        return self.engines[e]
    def iv(self, f):
        """The key and initial value of an encrypted message, as a number."""
        c = self.usm.get(f["user"])
        x = f["salt"] if c is not None and c.priv == "des" else (f["salt"], f["boots"], f["time"])
        return self.ivn((c.priv, c.pkey(f["engine"]), x) if c is not None and c.priv else (f["user"], f["engine"], x))
    def uid(self, u):
        if u not in self.users: self.users[u] = len(self.users)
        return self.users[u]
    def now(self): return int(self.w.now)
    def log(self, k, **f):
        f["k"], f["now"] = k, self.now()
        if k == "waitend": f["calm"] = getattr(self.w, "jumps", 1) == 0
        if k in ("req", "wait", "dlv", "adv"): self.w.steps = 0
        self.ev.append(f)
        return f
    def on_adv(self, a, b):
        a, b = int(a), int(b)
        if b > a: self.log("adv", **{"from": a, "to": b})
    # -------------------------------------------------------------- set up
    def new_engine(self, **kw):
        import snmp.engine
        self.engine, self.holds = snmp.engine.Engine(**kw), []
        return self.engine
    def manager(self, ver, addr, comm=b"public", **kw):
        from snmp.message.version import ProtocolVersion as V
        v = {1: V.SNMPv1, 2: V.SNMPv2c, 3: V.SNMPv3}[ver]
        if ver != 3: kw["community"] = comm
        m = self.engine.Manager(addr, version=v, **kw)
        a = addr if isinstance(addr, tuple) else (addr, 161)
        self.mgrs.append(m)
        info = dict(ver=ver, comm=self.comms(comm), addr=self.addrs(a), raddr=a)
        if ver == 3:
            lv = m.defaultSecurityLevel
            info.update(lvl=2 if lv.priv else 1 if lv.auth else 0, user=m.defaultUserName.decode(), ns=m.namespace)
            self.log("mgr", m=len(self.mgrs), eng0=self.eid(kw.get("engineID") or b""), addr=info["addr"], ns=info["ns"])
        self.minfo.append(info)
        return len(self.mgrs)
    # -------------------------------------------------------------- observation
    def vbd(self, vbs):
        return [self.dig(agent.T(48, agent.eoid(o) + v)) for o, v in vbs]
    def facts(self, data, mut="yes"):
        """What an independent reader sees in a datagram."""
        try: f = agent.parse(data, self.usm)
        except (Bad, ValueError, IndexError, TypeError): return dict(ok=False, ver=0), None
        out = dict(ok=True, well=mut, ver={0: 1, 1: 2, 3: 3}[f["ver"]])
        p = None
        if f["ver"] == 3 and not all(0 <= f[x] < 2**31 for x in ("msgid", "max", "boots", "time")): out["well"] = "maybe" if mut == "yes" else mut
        if f["ver"] in (0, 1):
            out["comm"] = self.comms(f["comm"]); p = f["pdu"]
        else:
            s = f["scoped"]
            out.update(msgid=idp(f["msgid"]), auth=f["auth"], priv=f["priv"], reportable=f["reportable"], genuine=f["genuine"], model=f["model"],
                       engine=self.eid(f["engine"]), user=self.uid(f["user"]), boots=max(-1, min(f["boots"], 2**31 - 1)),
                       time=max(-1, min(f["time"], 2**31 - 1)), readable=s is not None, iv=self.iv(f) if f["priv"] else 0, ct=self.dig(f.get("ct", b"")) if f["priv"] else 0, max=min(f["max"], 2**31 - 1))
            if s is not None:
                out.update(ce=self.eid(s["ce"]), cn=self.ctx.setdefault(s["cn"], len(self.ctx))); p = s["pdu"]
            else: out.update(ce=0, cn=0)
            out["lvl"] = 2 if f["auth"] and f["priv"] else 1 if f["auth"] else 0 if not f["priv"] else 3
        if p is not None:
            out.update(pdu=p["kind"], rid=idp(p["rid"]), a=max(-2**31, min(2**31 - 1, p["a"])), b=max(-2**31, min(2**31 - 1, p["b"])), vbs=self.vbd(p["vbs"]),
                       roid=[min(x, 2**31 - 1) for x in p["vbs"][0][0]] if p["vbs"] else [])
        else: out.update(pdu="none", rid=[0, 0], a=0, b=0, vbs=[], roid=[])
        return out, f
    def on_send(self, sock, data, addr):
        self.burst = self.burst + 1 if self.burst_at == self.w.now else 1
        self.burst_at = self.w.now
        if self.burst > 150 and not self.conc: raise sim.SimHang("transmits without end")
        f, raw = self.facts(data)
        f.update(raw=self.raws(data), addr=self.addrs(addr), sock=self.socks(id(sock)))
        self.log("send", **f)
        self.sends.append((f, raw, sock, addr))
        if self.after_send is not None and raw is not None: self.after_send(f, raw, addr)
    # -------------------------------------------------------------- application
    def req(self, m, kind="get", oids=("1.3.6.1.2.1.1.1.0",), auto=False, T=4096, P=1024, comm=None, lvl=None, user=None, **kw):
        """Issue a request through the public API; returns its number (handles stay in self.h)."""
        info = self.minfo[m - 1]
        fn = {"get": "get", "next": "getNext", "bulk": "getBulk", "set": "set"}[kind]
        args = list(oids)
        if kind == "set": sent = [(agent_oid(o), enc_value(v)) for o, v in oids]
        else: sent = [(agent_oid(o), agent.NULL) for o in oids]
        a = b = 0
        if kind == "bulk": a, b = kw.get("nonRepeaters", 0), kw.get("maxRepetitions", 0)
        if T is not None: kw["timeout"] = T / sim.TPS
        if P is not None: kw["refreshPeriod"] = P / sim.TPS
        if T is None: T = 10 * sim.TPS      # the documented defaults
        if P is None: P = sim.TPS
        f = dict(m=m, ver=info["ver"], kind=kind, P=P, T=T, auto=bool(auto), vbs=self.vbd(sent), a=a, b=b, addr=info["addr"])
        if info["ver"] != 3:
            f["comm"] = info["comm"] if comm is None else self.comms(comm)
            if comm is not None: kw["community"] = comm
        else:
            from snmp.security.levels import noAuthNoPriv, authNoPriv, authPriv
            lv = lvl if lvl is not None else info["lvl"]
            us = user if user is not None else info["user"].encode()
            f.update(lvl=lv, user=self.uid(us))
            if lvl is not None: kw["securityLevel"] = [noAuthNoPriv, authNoPriv, authPriv][lvl]
            if user is not None: kw["user"] = user
        self.h.append(None); r = len(self.h) - 1
        self.rinfo.append(dict(f, sent=sent, obj=None, raddr=info["raddr"]))
        f["r"] = r
        self.log("req", **f)
        try:
            x = getattr(self.mgrs[m - 1], fn)(*args, wait=bool(auto), **kw)
        except Exception as e:
            if auto: self.log("waitend", r=r, **self.failure(e))
            else: self.log("reqend", r=r, **self.failure(e))
            self.rinfo[r]["over"] = True
            return r
        except KeyboardInterrupt:
            self.log("waitend", r=r, **self.interrupted())
            self.rinfo[r]["over"] = True
            return r
        except sim.SimHang as e:
            self.hang(str(e), r)
        if auto:
            self.log("waitend", r=r, **self.success(x))
            self.rinfo[r]["over"] = True
        else:
            self.h[r] = x
            self.refs[r] = weakref.ref(x)
            self.log("reqend", r=r, out="ok", exc="")
        return r
    def wait(self, r):
        self.log("wait", r=r)
        try: x = self.h[r].wait()
        except Exception as e: f = self.failure(e)
        except KeyboardInterrupt: f = self.interrupted()
        except sim.SimHang as e: self.hang(str(e), r)
        else: f = self.success(x)
        self.log("waitend", r=r, **f)
        # (version 3 gives up a request whose wait is interrupted, though the handle may stay; with the others it can be waited for again)
        self.rinfo[r]["over"] = f["out"] != "intr" or self.rinfo[r]["ver"] == 3
    def add_user(self, name, cap, auth=None, priv=None, asec=b"authsecret-" * 64, psec=b"privsecret-" * 64, **kw):
        """A user of the local engine; the agents know it by the same secrets."""
        import snmp.security.usm.auth as A, snmp.security.usm.priv as P
        ap = dict(md5=A.HmacMd5, sha1=A.HmacSha, sha256=A.HmacSha256, sha512=A.HmacSha512, sha224=A.HmacSha224, sha384=A.HmacSha384)
        self.engine.usm.addUser(name.decode(), authProtocol=ap[auth] if auth else None, authSecret=asec if auth else None,
                                privProtocol=PRIV(priv) if priv else None, privSecret=psec if priv else None, **kw)
        self.usm[name] = agent.Cred(auth, asec, priv, psec)
        self.uid(name)
        self.caps[name] = cap
    def claim(self, engine, ns):
        """Another namespace asks for a remote engine (and hands it back at once)."""
        g = self.engine.usm.registerRemoteEngine(engine, ns)
        if g: self.engine.usm.unregisterRemoteEngine(engine, ns)
        self.log("claim", engine=self.eid(engine), ns=ns, granted=bool(g))
    def hold(self, engine, ns="zz"):
        """Another namespace claims a remote engine, and keeps it."""
        if engine in self.holds: return
        g = self.engine.usm.registerRemoteEngine(engine, ns)
        if g: self.holds.append(engine)
        self.log("hold", engine=self.eid(engine), ns=ns, granted=bool(g))
    def unhold(self, ns="zz"):
        for engine in self.holds:
            self.engine.usm.unregisterRemoteEngine(engine, ns)
            self.log("unhold", engine=self.eid(engine), ns=ns)
        self.holds = []
    def drop_manager(self, m):
        self.mgrs[m - 1] = None
        gc.collect()
        self.log("mdrop", m=m)
    def drop(self, r):
        """The application forgets the handle."""
        ref = weakref.ref(self.h[r])
        self.h[r] = None
        if not self.conc and ref() is not None: gc.collect()
        # (another thread may be using the request at this very moment: then it is looked at in the end)
        self.log("drop", r=r, dead=self.conc or ref() is None)
        self.rinfo[r]["over"] = True
    def success(self, vbl):
        try: vbs = [self.dig(bytes(v.encode())) for v in vbl]
        except Exception as e: return dict(out="exc", exc="result:" + type(e).__name__, vbs=[], est=0, cause="", cvb=0, binding=0)
        return dict(out="ok", exc="", vbs=vbs, est=0, cause="", cvb=0, binding=0)
    def failure(self, e):
        n = type(e).__name__
        f = dict(exc=n, vbs=[], est=0, cause="", cvb=0, binding=0)
        if n == "Timeout": f["out"] = "timeout"
        elif n == "ErrorResponse":
            c = e.cause
            f.update(out="err", est=int(e.status))
            if hasattr(c, "variableBindings"): f["cause"] = "pdu"
            elif isinstance(c, int): f["cause"] = "int"
            else: f["cause"] = "vb"; f["cvb"] = self.dig(bytes(c.encode()))
        elif n in REPORTS:
            f["out"] = "report"
            try:
                import snmp.pdu
                f["binding"] = self.dig(bytes(snmp.pdu.VarBind(e.name, e.value).encode()))
            except Exception: pass
        else: f["out"] = "exc"
        return f
    def interrupted(self): return dict(out="intr", exc="", vbs=[], est=0, cause="", cvb=0, binding=0)
    def interrupt(self):
        """Ctrl-C, if the application is waiting in the library just now."""
        if self.w.blocked:
            self.log("intr")
            raise KeyboardInterrupt
    def hang(self, why, r=0):
        self.hung = True
        self.w.aborting = True
        self.log("hang", r=r, why=why)
        raise Stop()
    def advance(self, dt): self.w.advance(dt)
    def until(self, t):
        if t > self.w.now: self.w.advance(t - self.w.now)
    # -------------------------------------------------------------- network
    def hear(self, data, addr=None, mut="yes", **tag):
        """A datagram reaches the engine's listener."""
        self.dn += 1
        d = self.dn
        f, _ = self.facts(data, mut)
        f.setdefault("well", "no")
        if not f["ok"]: f.update(pdu="none", rid=[0, 0], a=0, b=0, vbs=[], comm=0)
        f.update(tag)
        mux = self.w.mux
        self.log("dlv", d=d, **f)
        exc = ""
        if mux is not None and mux.listener is not None and mux.transports:
            try: mux.listener.hear(mux.transports[0], addr or (self.minfo[0]["raddr"] if self.minfo else ("127.0.0.1", 161)), data)
            except sim.SimHang as e: self.hang("listener: " + str(e))
            except Exception as e: exc = type(e).__name__
        self.log("dlvend", d=d, exc=exc)
    def last(self, r):
        """Facts of the latest datagram that carried request r."""
        for f, raw, sock, addr in reversed(self.sends):
            if raw is not None and self.owner(f, raw) == r: return f, raw
        return None, None
    def owner(self, f, raw):
        """Requests are told apart by their bindings (each scenario uses distinct ones), or by version and ID."""
        for r in range(len(self.rinfo) - 1, 0, -1):
            i = self.rinfo[r]
            if i["ver"] == f["ver"] and i["vbs"] == f["vbs"] and i["kind"] == f["pdu"]: return r
        return 0
    def gone(self):
        """All handles are given up: nothing may keep a finished or forgotten request alive."""
        if self.hung: return
        over = [r for r in self.refs if self.rinfo[r].get("over")]
        for r in over: self.h[r] = None
        if any(self.refs[r]() is not None for r in over): gc.collect()
        for r in over:
            if self.refs[r]() is not None: self.log("gone", r=r, dead=False)
    def trace(self, **kw):
        self.gone()
        caps = [-1] * (len(self.users) - 1)
        for n, c in self.caps.items(): caps[self.users[n] - 1] = c
        return dict(strict=self.strict, conc=self.conc, served=self.served, ev=self.ev, caps=caps, ne=len(self.engines) - 1, **kw)

class Stop(Exception): pass
REPORTS = {"UnrecognizedReport", "UnsupportedSecurityLevelReport", "UnknownUserNameReport", "WrongDigestReport", "DecryptionErrorReport",
           "UsmStatsReport", "UnhandledReport"}

def agent_oid(o): return tuple(int(x) for x in str(o).lstrip(".").split("."))
def enc_value(v):
    """Independent encoding of the few value types the scenarios set."""
    n = type(v).__name__
    if n in ("Integer", "Integer32"): return agent.eint(v.value)
    if n == "OctetString": return agent.eoct(v.data)
    raise ValueError(n)

# ------------------------------------------------------------------ replies of a community agent
def reply(run, r, vbs=None, est=0, eidx=0, kind="response", did=0, comm=None, ver=None, tail=b"", cut=0):
    """A community-based response to the latest datagram of r, possibly wrong in the given respects."""
    f, raw = run.last(r)
    if raw is None: return None
    if vbs is None: vbs = [(o, value(run, r, i)) for i, (o, _) in enumerate(raw["pdu"]["vbs"])]
    rid = raw["pdu"]["rid"] + did
    pdu = agent.epdu(kind, rid, est, eidx, vbs)
    v = raw["ver"] if ver is None else {1: 0, 2: 1}[ver]
    b = agent.community_msg(v, raw["comm"] if comm is None else comm, pdu) + tail
    return b[:len(b) - cut] if cut else b
def value(run, r, i): return agent.eint(1000 * r + 10 * len(run.ev) % 997 + i)

def PRIV(name):
    import snmp.security.usm.priv as P
    return dict(aes=P.AesCfb128, des=P.DesCbc)[name]
