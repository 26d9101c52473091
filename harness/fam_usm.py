"""C18..C22: the user-based security model, its registry, clocks, ciphers and keys, judged by Usm.tla, Privacy.tla and Keys.tla."""
import hashlib, json, random
import common, agent, sim, selftest
from agent import Cred, v3_msg, scoped, epdu, parse
from common import SEED, THOROUGH
BASE, TPS = 1 << 30, 1024
P = common.pmap

HASHES = ("md5", "sha1", "sha224", "sha256", "sha384", "sha512")
ENGINES = [b"\x80\x00\x1f\x88\x04eng-one", b"\x80\x00\x1f\x88\x04eng-two", b"\x80\x00\x00\x01\x02\x03\x04", b"\x80\x00\x1f\x88\x04eng-on", b"\x00" * 12, b"\xff" * 32]
SPACES = ["", "lab", "other"]
NAMES = [b"alice", b"bob", b"carol"]

def protocols(backend="openssl"):
    import snmp.security.usm.auth as A
    if backend == "openssl":
        common.build_openssl()
        import snmp.security.usm.priv.openssl.aes as a, snmp.security.usm.priv.openssl.des as d
    else:
        import snmp.security.usm.priv.pycryptodome.aes as a, snmp.security.usm.priv.pycryptodome.des as d
    return {"md5": A.HmacMd5, "sha1": A.HmacSha, "sha224": A.HmacSha224, "sha256": A.HmacSha256, "sha384": A.HmacSha384, "sha512": A.HmacSha512,
            "aes": a.AesCfb128, "des": d.DesCbc, None: None}

class Config:
    """Protocols and secrets of a user."""
    def __init__(self, auth=None, asec=None, priv=None, psec=None):
        self.auth, self.asec, self.priv, self.psec = auth, asec, priv, psec
        self.cred = Cred(auth, asec, priv, psec)
        self.cap = 0 if auth is None else 1 if priv is None else 2
    def args(self, pr, g=None):
        d = dict(authProtocol=pr[self.auth], privProtocol=pr[self.priv])
        if self.auth:
            if self.psec in (None, self.asec) and (g is None or g.random() < 0.5): d["secret"] = self.asec
            elif self.priv and g is not None and g.random() < 0.3: d.update(secret=self.psec, authSecret=self.asec)
            elif self.priv and g is not None and g.random() < 0.3: d.update(secret=self.asec, privSecret=self.psec)
            else:
                d["authSecret"] = self.asec
                if self.priv: d["privSecret"] = self.psec
        return d
CONFIGS = [Config(), Config("md5", b"secret one"), Config("sha1", b"secret one", "aes", b"secret two"), Config("sha1", b"secret one", "aes", b"secret 2."),
           Config("sha256", b"another one", "des", b"another one"), Config("sha1", b"secret one"), Config("sha512", b"x", "aes", b"y"),
           Config("sha224", b"secret one", "des", b"pp"), Config("sha384", b"secret one", "aes", b"secret one"), Config("md5", b"secret two", "des", b"z" * 100),
           Config("md5", b"secret one", "aes", b"secret one"), Config("sha256", b"s256")]

class Usm:
    """The real UserBasedSecurityModule, recorded."""
    def __init__(self, pr=None, seed=0, w=None):
        """`w`: a virtual world whose clocks the module reads itself; without one, every call names its time."""
        from snmp.security.usm import UserBasedSecurityModule
        self.w = w
        self.pr = pr or protocols()
        self.u = UserBasedSecurityModule()
        self.g = random.Random(seed)
        self.ev, self.now = [], 0
        self.users, self.engines, self.ns = {}, {}, {}
        for n in NAMES: self.uid(n)
        for e in ENGINES: self.eid(e)
        for s in SPACES: self.nid(s)
    def uid(self, x): return 0 if x == b"" else self.users.setdefault(bytes(x), len(self.users) + 1)
    def eid(self, x): return self.engines.setdefault(bytes(x), len(self.engines) + 1)
    def nid(self, x): return self.ns.setdefault(x, len(self.ns) + 1)
    @property
    def now(self): return self._now if self.w is None else int(self.w.now)
    @now.setter
    def now(self, t):
        if self.w is None: self._now = t
        elif t > self.w.now:
            self.w.advance(t - self.w.now)
            if self.g.random() < 0.3: self.w.wall += self.g.choice((-1, 1)) * self.g.choice((1, 20, 149, 152, 400, 86400)) * TPS
    def ts(self): return BASE + self.now / TPS
    def when(self): return () if self.w is not None else (self.ts(),)
    def log(self, k, **f): f["k"] = k; self.ev.append(f); return f
    def trace(self): return dict(ev=self.ev, caps=[c.cap for c in CONFIGS], nn=len(self.ns), nu=len(self.users), ne=len(self.engines))
    # ---------------------------------------------------------- registry
    def add(self, ns, user, c, lvl=-1, default=False):
        from snmp.security.levels import noAuthNoPriv, authNoPriv, authPriv
        kw = dict(CONFIGS[c].args(self.pr, self.g))
        if lvl >= 0: kw["defaultSecurityLevel"] = (noAuthNoPriv, authNoPriv, authPriv)[lvl]
        if default: kw["default"] = True
        if ns or self.g.random() < 0.5: kw["namespace"] = ns
        try: self.u.addUser(user.decode(), **kw); out = "ok"
        except ValueError: out = "ValueError"
        except Exception as e: out = type(e).__name__
        self.log("adduser", ns=self.nid(ns), user=self.uid(user), c=c + 1, lvl=lvl, out=out, **{"def": default})
    def defuser(self, ns):
        try:
            r = self.u.getDefaultUser(ns)
            out, u = ("none", 0) if r is None else ("ok", self.uid(r.encode()))
        except ValueError: out, u = "ValueError", 0
        except Exception as e: out, u = type(e).__name__, 0
        self.log("defuser", ns=self.nid(ns), out=out, user=u)
    def deflevel(self, ns, user):
        try:
            r = self.u.getDefaultSecurityLevel(user.decode(), ns)
            out, l = "ok", 2 if r.priv else 1 if r.auth else 0
        except ValueError: out, l = "ValueError", 0
        except Exception as e: out, l = type(e).__name__, 0
        self.log("deflevel", ns=self.nid(ns), user=self.uid(user), out=out, lvl=l)
    def assign(self, e, ns):
        self.log("assign", engine=self.eid(e), ns=self.nid(ns), granted=bool(self.u.registerRemoteEngine(e, ns)))
    def release(self, e, ns):
        try: self.u.unregisterRemoteEngine(e, ns); x = ""
        except Exception as err: x = type(err).__name__
        self.log("release", engine=self.eid(e), ns=self.nid(ns), exc=x)
    # ---------------------------------------------------------- messages
    def judge(self, data, user):
        gen, dec, f = [], [], None
        for i, c in enumerate(CONFIGS):
            if c.auth is None: continue
            x = parse(data, {user: c.cred})
            if x["genuine"]: gen.append(i + 1)
            if x["priv"] and x["scoped"] is not None: dec.append(i + 1)
        return gen, dec
    def incoming(self, data, well="yes", payload=None):
        """`payload`: the encoded scoped PDU the sender meant."""
        from snmp.message.v3 import SNMPv3Message
        from snmp.exception import IncomingMessageError
        from snmp.security.usm.implementation import NotInTimeWindow
        try:
            f = parse(data, {}); ok = True
            if not (all(0 <= f[x] < 2**31 for x in ("boots", "time", "msgid")) and f["max"] >= 484 and f["model"] == 3): well = "maybe" if well == "yes" else well
        except (agent.Bad, ValueError, IndexError, TypeError): ok = False
        d = dict(ok=ok, well=well if ok else "no", now=self.now, engine=0, user=0, lvl=0, gen=[], dec=[], boots=0, time=0, claims=0, rengine=0, ruser=0, same=True)
        if ok:
            gen, dec = self.judge(data, f["user"])
            d.update(engine=self.eid(f["engine"]), user=self.uid(f["user"]), lvl={0: 0, 1: 1, 3: 2, 2: 3}[f["flags"] & 3], gen=gen, dec=dec,
                     boots=max(-1, min(f["boots"], 2**31 - 1)), time=max(-1, min(f["time"], 2**31 - 1)))
        try:
            m = SNMPv3Message.decode(data)
            self.u.processIncoming(m, *self.when())
            d["out"] = "ok"
            fl = m.header.flags
            d.update(claims=2 if fl.privFlag else 1 if fl.authFlag else 0, rengine=self.eid(m.securityEngineID), ruser=self.uid(m.securityName))
            if payload is not None: d["same"] = m.scopedPDU is not None and m.scopedPDU.encode() == payload
        except NotInTimeWindow: d["out"] = "NotInTimeWindow"
        except IncomingMessageError: d["out"] = "reject"
        except Exception as e:
            import snmp.ber
            d["out"] = "reject" if isinstance(e, snmp.ber.ParseError) else "exception"
            if d["out"] == "exception": d["what"] = repr(e)[:200]
        return self.log("in", **d)
    def outgoing(self, e, user, lvl, size=20):
        from snmp.message.v3 import SNMPv3Message, HeaderData, MessageFlags, ScopedPDU
        from snmp.pdu import GetRequestPDU
        from snmp.security.levels import noAuthNoPriv, authNoPriv, authPriv
        from snmp.security import SecurityModel
        pdu = GetRequestPDU("1.3.6.1.2.1.1.1.0", requestID=self.g.randrange(1 << 31))
        m = SNMPv3Message(HeaderData(self.g.randrange(1 << 31), 1472, MessageFlags((noAuthNoPriv, authNoPriv, authPriv)[lvl], True), SecurityModel.USM), ScopedPDU(pdu, e, b"c" * self.g.randint(0, size)))
        d = dict(engine=self.eid(e), user=self.uid(user), lvl=lvl, now=self.now, wlvl=0, wuser=0, wengine=0, gen=[], dec=[], boots=0, time=0, iv=0)
        try: data = bytes(self.u.prepareOutgoing(m, e, user, *self.when())); d["out"] = "ok"
        except Exception as x: d["out"] = type(x).__name__
        else:
            f = parse(data, {})
            gen, dec = self.judge(data, f["user"])
            d.update(wlvl={0: 0, 1: 1, 3: 2, 2: 3}[f["flags"] & 3], wuser=self.uid(f["user"]), wengine=self.eid(f["engine"]), gen=gen, dec=dec,
                     boots=min(f["boots"], 2**31 - 1), time=min(f["time"], 2**31 - 1), iv=[list(f["salt"]), f["boots"] & 0xffff, f["boots"] >> 16, f["time"] & 0xffff, f["time"] >> 16])
        self.log("out", **d)

_n = [0]
def message(c, engine, user, lvl, boots, time, g=None, ce=None, **kw):
    """A conforming message and its scoped PDU."""
    _n[0] += 1
    g = g or random
    s = scoped(engine if ce is None else ce, b"", epdu("response", g.randrange(1 << 31), 0, 0, [((1, 3, 6, 1, 2, 1, 1, _n[0] % 100), agent.eoct(b"v" * g.randrange(0, 40)))]))
    return v3_msg(g.randrange(1 << 31), {0: 0, 1: 1, 2: 3}[lvl], engine, min(boots, 2**31 - 1), min(time, 2**31 - 1), user, s, CONFIGS[c].cred, **kw), s

# ---------------------------------------------------------------- C18: tampering
def tamper(ci, lvl, seed):
    """Every octet of a genuine message changed, every truncation, and messages made with wrong keys; estimates probed in between."""
    g = random.Random(seed)
    x = Usm(seed=seed)
    e, u = ENGINES[0], NAMES[0]
    others = [i for i in range(len(CONFIGS)) if i != ci and CONFIGS[i].auth]
    x.add("", u, ci)
    x.add("", NAMES[1], g.choice(others))
    x.add("lab", u, g.choice(others)); x.add("lab", NAMES[2], ci)
    x.assign(e, ""); x.assign(ENGINES[1], "lab"); x.assign(ENGINES[2], "")
    boots, time = g.choice([0, 1, 7, 300]), g.choice([0, 127, 1000, 70000])
    m, s = message(ci, e, u, lvl, boots, time, g)
    if g.random() < 0.5: x.incoming(m, "yes", s)
    def probe(): x.outgoing(g.choice(ENGINES[:3]), u, g.randint(0, 2))
    muts = [(i, b) for i in range(len(m)) for b in {1 << g.randrange(8), 255, g.randrange(1, 256)}]
    if not THOROUGH: muts = [q for q in muts if g.random() < 0.5]
    for k, (i, b) in enumerate(muts):
        y = bytearray(m); y[i] ^= b
        x.incoming(bytes(y), "maybe")
        if k % 25 == 0: probe()
    for i in range(len(m)):
        if THOROUGH or g.random() < 0.3: x.incoming(m[:i], "no")
    for t in (m + b"\0", m + m, b"", m[:1]): x.incoming(t, "no")
    # several octets at once
    for _ in range(40):
        y = bytearray(m)
        for _ in range(g.randint(2, 4)): y[g.randrange(len(y))] = g.randrange(256)
        x.incoming(bytes(y), "maybe")
    probe()
    f = parse(m, {})
    k = len(f["mac"])
    def rebuilt(mac, flags=None, engine=e, user=u, salt=None, b=boots, t=time, payload=None):
        p = agent.T(48, agent.eoct(engine) + agent.eint(b) + agent.eint(t) + agent.eoct(user) + agent.eoct(mac) + agent.eoct(f["salt"] if salt is None else salt))
        body = m[len(m) - len(payload_of(m)):] if payload is None else payload
        return agent.T(48, agent.eint(3) + agent.T(48, agent.eint(f["msgid"]) + agent.eint(f["max"]) + agent.eoct(bytes([f["flags"] if flags is None else flags])) + agent.eint(3)) + agent.eoct(p) + body)
    for mac in [f["mac"][:j] for j in range(k)] + [f["mac"] + bytes(j) for j in (1, 2, 12)] + [bytes(k), b"\xff" * k, f["mac"][::-1], f["mac"][1:] + f["mac"][:1]]:
        x.incoming(rebuilt(mac), "maybe")
    # a correct code that is cut short or lengthened in the message itself
    c = CONFIGS[ci].cred
    for j in list(range(0, k)) + [k + 1, k + 8]:
        z = rebuilt(bytes(j))
        full = agent._hmac.new(c.akey(e), z, agent.HASH[c.auth][0]).digest()
        full += full
        x.incoming(rebuilt(full[:j]), "maybe")
    probe()
    # keys of another user, engine, namespace, algorithm; no such user or engine
    for j in others[:]:
        if CONFIGS[j].cap < lvl: continue
        x.incoming(*_pair(message(j, e, u, lvl, boots, time + 10000, g)))
    for en in ENGINES[:5] + [b""]:
        n, s2 = message(ci, en, u, lvl, boots, time, g)
        x.incoming(n, "yes", s2)
        # localized to another engine
        if en != e:
            z = rebuilt(bytes(k), engine=en)
            x.incoming(rebuilt(agent.mac(c.auth, c.akey(e), z), engine=en), "maybe")
            x.incoming(rebuilt(agent.mac(c.auth, c.akey(en), z), engine=en), "maybe")
    for us in NAMES[1:] + [b"", b"alic", b"alicee", b"ALICE", b"\xff\xfe"]:
        n, s2 = message(ci, e, us, lvl, boots, time, g)
        x.incoming(n, "yes", s2)
    probe()
    # authentication claimed or privacy claimed without
    for fl in (0, 1, 2, 3, 4, 5, 6, 7, 0xf8, 0xff):
        for mac in (b"", f["mac"]):
            z = rebuilt(bytes(len(mac)), flags=fl)
            x.incoming(rebuilt(mac, flags=fl), "maybe")
            if mac and fl & 1: x.incoming(rebuilt(agent.mac(c.auth, c.akey(e), z), flags=fl), "maybe")
    # privacy: malformed salt, lengths
    if lvl == 2:
        for sl in (b"", b"1234567", b"123456789", bytes(8), bytes(16)):
            z = rebuilt(bytes(k), salt=sl)
            x.incoming(rebuilt(agent.mac(c.auth, c.akey(e), z), salt=sl), "maybe")
        for n in (0, 1, 7, 8, 9, 15, 16, 17, 24):
            pl = agent.eoct(bytes(g.randrange(256) for _ in range(n)))
            z = rebuilt(bytes(k), payload=pl)
            x.incoming(rebuilt(agent.mac(c.auth, c.akey(e), z), payload=pl), "maybe")
        pl = agent.T(48, b"")
        z = rebuilt(bytes(k), payload=pl)
        x.incoming(rebuilt(agent.mac(c.auth, c.akey(e), z), payload=pl), "maybe")
    probe()
    x.incoming(m, "yes", s)
    n, s2 = message(ci, e, u, lvl, boots, time + 10, g)
    x.incoming(n, "yes", s2)
    for _ in range(3): probe()
    return x.trace()
def _pair(p): return p[0], "yes", p[1]
def payload_of(m):
    t, s, e = agent.tlv(m, 0, len(m))
    x = agent.seq(m, s, e)[3]
    # header of the last element
    prev = agent.seq(m, s, e)[2]
    return m[prev[2]:]

# ---------------------------------------------------------------- C19: clocks
DT = [0, 1, TPS - 1, TPS, TPS + 1, 75 * TPS, 149 * TPS, 150 * TPS, 150 * TPS + 1, 151 * TPS - 1, 151 * TPS, 1000 * TPS]
def clocks(seed, n=40, w=None):
    """Authenticated and unauthenticated messages with chosen boots and times, over several engines and users."""
    g = random.Random(seed)
    x = Usm(seed=seed, w=w)
    cfgs = [g.choice([1, 5, 10, 11]), g.choice([2, 4, 7])]
    for i, c in enumerate(cfgs): x.add("", NAMES[i], c)
    x.add("lab", NAMES[0], 5)
    es = ENGINES[:g.randint(1, 3)]
    for e in es: x.assign(e, "")
    x.now = g.choice([0, 1, 512, 5 * TPS])
    b0 = g.choice([0, 1, 3, 2**31 - 3, 2**31 - 2, 2**31 - 1])
    clock = {e: [b0, g.choice([0, 5, 149, 150, 151, 1000, 2**31 - 200, 2**31 - 1]) - x.now // TPS] for e in es}
    seen = {e: [] for e in es}
    for _ in range(n):
        r = g.random()
        e = g.choice(es)
        if r < 0.3: x.now += g.choice(DT); continue
        i = g.randrange(2)
        lvl = g.randint(0, CONFIGS[cfgs[i]].cap) if g.random() < 0.5 else 1
        b, t = clock[e][0], max(0, clock[e][1] + x.now // TPS)
        y = g.random()
        if y < 0.3: pass
        elif y < 0.6: t += g.choice([-1000, -152, -151, -150, -149, -2, -1, 1, 2, 149, 150, 151, 1000])
        elif y < 0.7: b += g.choice([-1, 1, 1]); t = g.choice([0, 1, t, 100000])
        elif y < 0.75: clock[e][0] = b = b + 1; clock[e][1] = -(x.now // TPS); t = 0
        elif y < 0.8: b, t = g.choice([(2**31 - 1, t), (b, 2**31 - 1), (2**31 - 1, 2**31 - 1), (0, 0), (2**31 - 2, 0)])
        elif seen[e]: b, t = g.choice(seen[e])
        b, t = max(0, min(b, 2**31 - 1)), max(0, min(t, 2**31 - 1))
        if lvl: seen[e].append((b, t))
        m, s = message(cfgs[i], e, NAMES[i], lvl, b, t, g, badmac=lvl > 0 and g.random() < 0.12)
        x.incoming(m, "yes", s)
        if g.random() < 0.5: x.outgoing(g.choice(es), NAMES[g.randrange(2)], 1)
        if g.random() < 0.1:                    # estimates survive the loss of a claim
            x.release(e, "")
            if g.random() < 0.3: x.assign(e, "lab")
            if g.random() < 0.7: x.assign(e, "")
    return x.trace()
def live_clocks(seed):
    """The same, but the module reads the clocks itself, while somebody keeps setting the system's clock."""
    with sim.SeqWorld() as w: return clocks(seed, w=w)
def window(seed):
    """All boots differences and all lags around the window, at sub-second arrival offsets."""
    g = random.Random(seed)
    tr = []
    for db in (-1, 0, 1, 2):
        for lag in (-2, -1, 0, 1, 149, 150, 151, 152):
            for off in (0, 1, TPS - 1):
                for dt in (0, 1, 149, 150, 151, 300):
                    for b0 in (5, 2**31 - 2) if db in (0, 1) else (5,):
                        x = Usm(seed=seed)
                        x.add("", NAMES[0], 1); x.assign(ENGINES[0], "")
                        x.now = g.randrange(TPS)
                        m, s = message(1, ENGINES[0], NAMES[0], 1, b0, 1000, g); x.incoming(m, "yes", s)
                        x.now += dt * TPS + off
                        t = 1000 + dt - lag
                        if t < 0: continue
                        m, s = message(1, ENGINES[0], NAMES[0], 1, b0 + db, t, g); x.incoming(m, "yes", s)
                        x.outgoing(ENGINES[0], NAMES[0], 1)
                        x.now += g.choice([0, 1, TPS, 149 * TPS])
                        m, s = message(1, ENGINES[0], NAMES[0], 1, b0, 1000 + dt, g); x.incoming(m, "yes", s)
                        x.outgoing(ENGINES[0], NAMES[0], 1)
                        tr.append(x.trace())
    g.shuffle(tr)
    return tr if THOROUGH else tr[:400]

# ---------------------------------------------------------------- C20: registry
def registry(seed, n=40):
    g = random.Random(seed)
    x = Usm(seed=seed)
    es, ns, us = ENGINES[:g.randint(1, 3)], SPACES[:g.randint(1, 3)], NAMES[:g.randint(1, 3)]
    pool = g.sample(range(len(CONFIGS)), g.randint(1, 4))
    for _ in range(n):
        r = g.random()
        if r < 0.25: x.add(g.choice(ns), g.choice(us), g.choice(pool), g.choice([-1, -1, 0, 1, 2]), g.random() < 0.25)
        elif r < 0.45: x.assign(g.choice(es), g.choice(ns))
        elif r < 0.6:
            e = g.choice(es)
            x.release(e, g.choice(ns))
        elif r < 0.66: x.defuser(g.choice(ns))
        elif r < 0.72: x.deflevel(g.choice(ns), g.choice(us))
        elif r < 0.88: x.outgoing(g.choice(es), g.choice(us), g.choice([0, 1, 1, 2]))
        else:
            c = g.choice(pool)
            m, s = message(c, g.choice(es), g.choice(us), g.randint(0, CONFIGS[c].cap), 1, 1000 + x.now // TPS, g)
            x.incoming(m, "yes", s)
        x.now += g.choice([0, 1, TPS])
    return x.trace()
def short_histories(depth, seed):
    """Every sequence of registry operations over one engine, two namespaces, two users, then the whole state is probed."""
    A, B = SPACES[0], SPACES[1]
    ops = [lambda x: x.add(A, NAMES[0], 1), lambda x: x.add(A, NAMES[0], 2), lambda x: x.add(B, NAMES[0], 5), lambda x: x.add(A, NAMES[1], 2, 1, True),
           lambda x: x.add(A, NAMES[1], 5, 2), lambda x: x.assign(ENGINES[0], A), lambda x: x.assign(ENGINES[0], B), lambda x: x.release(ENGINES[0], A), lambda x: x.release(ENGINES[0], B)]
    def one(i):
        x, k = Usm(seed=seed + i), i
        for _ in range(depth):
            ops[k % len(ops)](x); k //= len(ops)
        for ns in (A, B):
            x.defuser(ns)
            for u in NAMES[:2]: x.deflevel(ns, u)
        for u in NAMES[:2]:
            for l in (1, 2): x.outgoing(ENGINES[0], u, l)
        for c in (1, 2, 5):
            m, s = message(c, ENGINES[0], NAMES[0], 1, 1, 1000, x.g); x.incoming(m, "yes", s)
        return x.trace()
    idx = list(range(len(ops) ** depth))
    g = random.Random(seed)
    g.shuffle(idx)
    return P(one, idx if THOROUGH else idx[:1500])

# ---------------------------------------------------------------- the design model
MODEL = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Contract Refines NeverAhead FreshAccepted ReplayRejected Strangers\n%s\nCONSTANTS N=%d NX=%d NN=%d Steps={%s} NSent=%d MaxBoots=%d Keep=%s\n%s\n"
def design(out):
    runs = [(7, 1, 1, (1023, 153600, 1024), 2, 1), (7, 1, 1, (153600,), 2, 0), (6, 2, 1, (153600, 1024), 2, 1), (6, 1, 2, (153600, 1024), 2, 1)]
    if THOROUGH: runs += [(10, 1, 1, (1023, 153600, 1024), 3, 1), (8, 2, 2, (153600, 1024), 2, 1), (9, 1, 2, (153600, 1024), 3, 0)]
    for N, NX, NN, steps, ns, mb in runs:
        r = common.tlc("UsmModel", MODEL % ("PROPERTY Forward", N, NX, NN, ",".join(map(str, steps)), ns, mb, "FALSE", "VIEW view"), timeout=850, heap="12g")
        if not r.ok: raise common.TLCError("UsmModel: the design breaks the contract\n" + r.out[-4000:])
        out.add("design_states", r.distinct)
    if THOROUGH: out.add("broken_designs_found_out", selftest.run("UsmModel"))
def behaviours(n, seed):
    s = {}
    for NX, NN, mb in ((1, 1, 1), (2, 2, 1), (1, 2, 0), (1, 1, 0)):
        r = common.tlc("UsmModel", MODEL % ("", 14, NX, NN, "1023, 1024, 76800, 153600, 154624", 5, mb, "TRUE", "INVARIANT Export"),
                       extra=("-simulate", "num=%d" % (n // 4), "-depth", "20", "-seed", str(seed + NX)), timeout=700, check=False, workers=1)
        k = len(s)
        for p in r.printed:
            if isinstance(p, str) and p.startswith("SCN "): s[NN, p[4:]] = 1
        if len(s) == k: raise common.TLCError("UsmModel produced no behaviour\n" + r.out[-3000:])
    return [(nn, json.loads(x)) for nn, x in s]
def replay(nn, hist, seed):
    """One behaviour of UsmModel on the real library, with every estimate probed after every step."""
    g = random.Random(seed)
    x = Usm(seed=seed)
    ex = ENGINES[:2]
    cf = g.sample([1, 2, 4, 5, 7, 11], nn)
    for i in range(nn): x.add(SPACES[i], NAMES[0], cf[i])
    for a in hist:
        k = a["a"]
        if k == "tick": x.now += a["d"]
        elif k == "assign": x.assign(ex[a["x"] - 1], SPACES[a["ns"] - 1])
        elif k == "release": x.release(ex[a["x"] - 1], SPACES[a["ns"] - 1])
        elif k == "dlv":
            c = cf[(a["x"] - 1) % nn]
            m, s = message(c, ex[a["x"] - 1], NAMES[0], g.randint(1, CONFIGS[c].cap), a["boots"], a["time"], g, badmac=a["tamper"])
            x.incoming(m, "yes", s)
        elif k == "forge":
            m, s = message(0, ex[a["x"] - 1], NAMES[0], 0, a["boots"], a["time"], g)
            x.incoming(m, "yes", s)
        if k not in ("send", "reboot"):
            for e in ex: x.outgoing(e, NAMES[0], 1)
    return x.trace()

def judge(out, traces, what):
    bads, r = common.validate("UsmTrace", traces, files={"focus.json": json.dumps([out.prop])})
    out.add(what, len(traces))
    out.add("events", sum(len(t["ev"]) for t in traces))
    out.add("contract_states", r.distinct)
    out.take(bads, traces)

# ---------------------------------------------------------------- C21: ciphers
def _ecb(p, key):
    from Crypto.Cipher import AES, DES
    return (AES if p == "aes" else DES).new(key, (AES if p == "aes" else DES).MODE_ECB)
def blocks(p, key, boots, time, salt, ct):
    """[block cipher input, output], by an independent implementation: the inputs follow RFC 3414 8.1.1 and RFC 3826 3.1."""
    if len(key) < 16 or len(salt) != 8: return [], []
    k = key[:16] if p == "aes" else key[:8]
    c = _ecb(p, k)
    out = []
    if p == "aes":
        x = agent.aes_iv(boots, time, salt)
        for i in range(0, len(ct), 16):
            out.append([list(x), list(c.encrypt(x))]); x = ct[i:i + 16]
            if len(x) < 16: break
    else:
        for i in range(0, len(ct) - len(ct) % 8, 8): out.append([list(ct[i:i + 8]), list(c.decrypt(ct[i:i + 8]))])
    return list(k), out

class Ciphers:
    """Key objects of one implementation, recorded."""
    def __init__(self, cls, p): self.cls, self.p, self.ev = cls, p, []
    def key(self, k, start=None):
        """A key object; start: the octets the system's random source yields while it is made."""
        import os
        real = os.urandom
        if start is not None: os.urandom = lambda n: start[-n:].rjust(n, b"\0")
        try:
            o, exc = None, ""
            try: o = self.cls(k)
            except Exception as e: exc = "ValueError" if isinstance(e, ValueError) else type(e).__name__
        finally: os.urandom = real
        self.ev.append(dict(k="key", len=len(k), exc=exc))
        return o
    def enc(self, o, k, text, boots, time, quiet=False):
        d = dict(k="enc", p=self.p, key=list(k), boots=boots, time=time, text=list(text), salt=[], ct=[], kb=[], bl=[], exc="")
        try: ct, salt = o.encrypt(text, boots, time)
        except Exception as e: d["exc"] = repr(e)[:100]; ct = salt = None
        else:
            ct, salt = bytes(ct), bytes(salt)
            kb, bl = blocks(self.p, k, boots, time, salt, ct)
            d.update(salt=list(salt), ct=list(ct), kb=kb, bl=bl)
        self.ev.append(d)
        return ct, salt
    def dec(self, o, k, ct, boots, time, salt):
        from snmp.exception import IncomingMessageError
        d = dict(k="dec", p=self.p, key=list(k), boots=boots, time=time, ct=list(ct), salt=list(salt), kb=[], bl=[], text=[], out="")
        try: t = bytes(o.decrypt(ct, boots, time, salt)); d.update(out="ok", text=list(t))
        except (IncomingMessageError, ValueError): d["out"] = "reject"
        except Exception as e: d.update(out="exception", what=repr(e)[:100])
        if len(salt) == 8: d["kb"], d["bl"] = blocks(self.p, k, boots, time, salt, ct)
        self.ev.append(d)
    def trace(self): return dict(ev=self.ev)
NUMS = [0, 1, 127, 128, 255, 256, 65535, 65536, 2**24 - 1, 2**24, 2**31 - 2, 2**31 - 1]
def ciphers(backend, p, seed):
    g = random.Random(seed)
    rb = lambda n: bytes(g.randrange(256) for _ in range(n))
    x = Ciphers(protocols(backend)[p], p)
    for n in list(range(0, 20)) + [24, 28, 32, 48, 64, 100]: x.key(rb(n))
    for start in (None, b"\xff" * 7 + b"\xf9", bytes(8), b"\0\0\0\0\xff\xff\xff\xfa", b"\x7f" + b"\xff" * 7, b"\xff\xff\xff\xfe\xff\xff\xff\xfc"):
        k = rb(g.choice([16, 16, 20, 32, 64]))
        o = x.key(k, start)
        if o is None: continue
        boots, time = g.choice(NUMS), g.choice(NUMS)
        for n in list(range(0, 34)) + [47, 48, 49, 63, 64, 65, 127, 128, 200, 255, 256]:
            if g.random() < 0.4: boots, time = g.choice(NUMS), g.choice(NUMS)
            t = rb(n) if g.random() < 0.8 else bytes(n)
            ct, salt = x.enc(o, k, t, boots, time)
            if ct is None: continue
            if g.random() < 0.5: x.dec(o, k, ct, boots, time, salt)
            # what another engine encrypts, under the other key sizes and salts
            s2 = rb(8)
            x.dec(o, k, agent.encrypt(p, k, boots, time, s2, t), boots, time, s2)
        for n in (0, 1, 4, 7, 9, 12, 16): x.dec(o, k, rb(16), boots, time, rb(n))
        for n in range(0, 33): x.dec(o, k, rb(n), boots, time, rb(8))
        x.enc(o, k, rb(20), boots, time)
    return x.trace()
def salts(backend, p, seed, n):
    """Many encryptions under one key: their initial values only."""
    g = random.Random(seed)
    x = Ciphers(protocols(backend)[p], p)
    k = bytes(g.randrange(256) for _ in range(16))
    o = x.key(k, bytes(g.randrange(256) for _ in range(2)) + b"\xff\xff\xff\xff" + bytes([255, g.randrange(256)]))
    boots, time = g.choice(NUMS), g.choice(NUMS)
    ivs = []
    for i in range(n):
        if g.random() < 0.001: time = min(2**31 - 1, time + 1)
        ct, s = o.encrypt(b"x" * (i % 20), boots, time)
        iv = agent.aes_iv(boots, time, s) if p == "aes" else s
        ivs.append([int.from_bytes(iv[j:j + 3], "big") for j in range(0, len(iv), 3)])
    x.ev.append(dict(k="many", key=list(k), ivs=ivs))
    return x.trace()
def privacy(out, k):
    jobs = [(b, p, SEED * 17 + i) for b in ("openssl", "pycryptodome") for p in ("aes", "des") for i in range(4 * k)]
    tr = P(lambda j: ciphers(*j), jobs)
    big = P(lambda j: salts(*j, n=70000 if not THOROUGH else 140000), [j for j in jobs if j[2] == SEED * 17])
    bads, r = common.validate("PrivacyTrace", tr + big)
    out.add("cipher_histories", len(tr)); out.add("salt_histories", len(big))
    out.add("events", sum(len(t["ev"]) for t in tr + big)); out.add("contract_states", r.distinct)
    out.take(bads, tr + big, lambda t, b: json.dumps({k: v for k, v in t["ev"][b.l - 1].items() if k not in ("bl", "ivs")})[:400])
    for t in big: t["ev"][-1].pop("ivs", None)

# ---------------------------------------------------------------- C22: keys
class Digests:
    """The digest table of a trace, by hashlib."""
    def __init__(self): self.t, self.names = {}, {}
    def __call__(self, a, pre, rep=1):
        k = (a, rep, bytes(pre))
        if k not in self.t:
            data = bytes(pre) if rep == 1 else (bytes(pre) * (rep // max(1, len(pre)) + 1))[:rep]
            self.t[k] = hashlib.new(a, data).digest()
        return self.t[k]
    def name(self, a, pre, rep):
        """How a trace writes the secret: long ones by a name."""
        if len(pre) <= 300: return list(pre)
        self.names.setdefault(pre, [-len(pre), -len(self.names)])
        return self.names[pre]
    def mac(self, a, key, msg):
        b = 128 if a in ("sha384", "sha512") else 64
        pad = lambda x: bytes(c ^ x for c in key.ljust(b, b"\0"))
        return self(a, pad(92) + self(a, pad(54) + msg))
    def table(self): return [dict(a=a, rep=r, pre=self.names.get(p) or list(p), dig=list(d)) for (a, r, p), d in self.t.items()]
M = 1 << 20
def keys(a, seed):
    g = random.Random(seed)
    rb = lambda n: bytes(g.randrange(256) for _ in range(n))
    cls = protocols()[a]
    h, ev = Digests(), []
    def rec(k, fn, **f):
        try: o, exc = bytes(fn()), ""
        except Exception as e: o, exc = b"", repr(e)[:100]
        ev.append(dict(f, k=k, a=a, out=list(o), exc=exc))
        return o
    for n in [1, 2, 3, 5, 7, 8, 10, 11, 16, 31, 33, 64, 127, 128, 129, 255, 1000, 4095, 65537] + [g.randint(1, 300) for _ in range(3)]:
        s = rb(n)
        if g.random() < 0.2: s = bytes(n)
        e = rb(g.choice([5, 9, 12, 12, 20, 32, 0]))
        ku = h(a, s, M); h(a, ku + e + ku)
        name = h.name(a, s, M)
        rec("computekey", lambda: cls.computeKey(s), secret=name)
        rec("localize", lambda: cls.localizeKey(ku, e), key=list(ku), engine=list(e))
        rec("both", lambda: cls.localize(s, e), secret=name, engine=list(e))
    for n in (0, 1, 20, 55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 300, 1472):
        for kl in {hashlib.new(a).digest_size, 16, 1}:
            key, m = rb(kl), rb(n)
            h.mac(a, key, m)
            o = cls(key)
            z = o.msgAuthenticationParameters
            rec("sign", lambda: o.sign(m), key=list(key), msg=list(m), zeros=len(z) if not any(z) else -1)
    return dict(ev=ev, h=h.table())
def streams(a, seed, lens):
    """The octets that are fed to the hash function, checked in full: the hash is replaced by a recorder."""
    tr = []
    real = protocols()[a]
    for n in lens:
        s = bytes((i * 7 + 13 * (i // 256) + seed) % 256 for i in range(n))
        buf = bytearray()
        class Rec:
            digest_size = 16
            def __init__(self, data=b""): buf.extend(data)
            def update(self, data): buf.extend(data)
            def digest(self): return b"\0" * 16
        cls = type("Recorded", (real,), dict(ALGORITHM=Rec))
        try: cls.computeKey(s)
        except Exception: continue
        if not buf: continue            # hashes by other means
        tr.append(dict(h=[], ev=[dict(k="stream", n=len(buf), runs=_runs(bytes(buf), s))]))
    return tr
def _runs(b, s):
    """The stream as [offset in the secret, length] pieces (an encoding; joined again by the specification)."""
    out, i, n = [], 0, len(s)
    while i < len(b) and len(out) < 200:
        off = i % n
        # longest run that continues the secret periodically from `off`
        if b[i] == s[off]:
            j = i; rep = s[off:] + s * 64
            while j < len(b):
                c = b[j:j + len(rep) - len(rep) % n]
                want = (s[j % n:] + s * 65)[:len(c)]
                if c == want: j += len(c)
                else:
                    while j < len(b) and b[j] == s[j % n]: j += 1
                    break
            out.append([off, j - i]); i = j
        else: out.append([-1 - b[i], 1]); i += 1
    return out
def secrets_of(seed, n):
    """Which of its secrets a user's messages are made with."""
    g = random.Random(seed)
    ev = []
    sec = {0: None, 1: b"the authentication secret", 2: b"the privacy secret", 3: b"the common secret"}
    for i in range(n):
        x = Usm(seed=seed + i)
        auth, priv = g.choice([None] + list(HASHES)), g.choice([None, "aes", "des"])
        a, p, c = g.choice([0, 1]), g.choice([0, 2]), g.choice([0, 3])
        if auth and (a == 0 or priv and p == 0) and c == 0: c = 3
        kw = dict(authProtocol=x.pr[auth], privProtocol=x.pr[priv])
        if a: kw["authSecret"] = sec[1]
        if p: kw["privSecret"] = sec[2]
        if c: kw["secret"] = sec[3]
        if a == 0 and g.random() < 0.3: kw["authSecret"] = None
        e, u = g.choice(ENGINES), g.choice(NAMES)
        d = dict(k="user", auth=auth is not None, priv=priv is not None, cs=c, aset=[], pset=[], lvl=-1, exc="", **{"as": a, "ps": p})
        try:
            x.u.addUser(u.decode(), **kw)
            if g.random() < 0.5: x.u.registerRemoteEngine(e)
            else: x.u.registerRemoteEngine(e); x.u.addUser(u.decode(), **kw)
            l = x.u.getDefaultSecurityLevel(u.decode())
            d["lvl"] = 2 if l.priv else 1 if l.auth else 0
            if auth:
                from snmp.message.v3 import SNMPv3Message, HeaderData, MessageFlags, ScopedPDU
                from snmp.pdu import GetRequestPDU
                from snmp.security import SecurityModel
                m = SNMPv3Message(HeaderData(5, 1472, MessageFlags(l, True), SecurityModel.USM), ScopedPDU(GetRequestPDU("1.3.6.1.2.1.1.1.0", requestID=9), e, b""))
                data = bytes(x.u.prepareOutgoing(m, e, u, BASE))
                for k1 in (1, 2, 3):
                    if parse(data, {u: Cred(auth, sec[k1])})["genuine"]: d["aset"].append(k1)
                    if priv and parse(data, {u: Cred(auth, sec[1], priv, sec[k1])})["scoped"] is not None: d["pset"].append(k1)
        except Exception as err: d["exc"] = repr(err)[:200]
        ev.append(d)
    return dict(ev=ev, h=[])
def keyed(out, k):
    tr = P(lambda j: keys(*j), [(a, SEED * 41 + i) for a in HASHES for i in range(2 * k)])
    tr += [t for ts in P(lambda a: streams(a, SEED, [1, 3, 8, 11, 37, 64, 100, 1000, 4096, 5000, 65536, 100003, M - 1, M, M + 1, M + 100][:: 1 if THOROUGH or a == "md5" else 3]), HASHES) for t in ts]
    us = P(lambda i: secrets_of(SEED * 43 + i, 20), range(20 * k))
    bads, r = common.validate("KeysTrace", tr + us)
    out.add("key_histories", len(tr)); out.add("user_histories", len(us))
    out.add("events", sum(len(t["ev"]) for t in tr + us)); out.add("contract_states", r.distinct)
    out.take(bads, tr + us, lambda t, b: json.dumps({k: v for k, v in t["ev"][b.l - 1].items() if k not in ("secret", "runs")})[:400])

def run(prop):
    common.setup_repo_import()
    if prop in ("C19", "C20", "C21"): sim.install()
    protocols()
    out = common.Outcome(prop, "model_checking")
    k = 6 if THOROUGH else 1
    out.assumptions = ["hash functions and block ciphers are trusted (hashlib, OpenSSL, pycryptodome); the independent agent shares only those with the code under test"]
    if prop in ("C18", "C19", "C20"): usm(out, prop, k)
    if prop == "C21":
        privacy(out, k)
        usm(out, prop, k)
        import fam_v3
        pl = [p for p in fam_v3.PLANS if sum(1 for a in p["apps"] for x in a if x[-1] == 2) > 1]
        tr = fam_v3.interleavings(120 * k, SEED, pl)
        fam_v3.judge(out, tr, "scheduled")
        fam_v3.judge(out, P(lambda i: fam_v3.history(SEED * 300007 + i, hostile=0.3), range(300 * k)), "v3_histories")
    if prop == "C22":
        keyed(out, k)
        usm(out, prop, k)
    return out

def usm(out, prop, k):
    if prop in ("C19", "C20"): design(out)
    hs = behaviours({"C18": 300, "C21": 100, "C22": 100}.get(prop, 600) * k, SEED)
    judge(out, P(lambda x: replay(*x[1], SEED * 7919 + x[0]), list(enumerate(hs))), "model_behaviours")
    full = [(ci, l) for ci in range(1, len(CONFIGS)) for l in range(1, CONFIGS[ci].cap + 1)]
    if prop == "C18":
        judge(out, P(lambda x: tamper(*x, seed=SEED * 131 + 7 * x[0] + x[1]), full * (3 if THOROUGH else 1)), "tampering_histories")
    judge(out, P(lambda i: clocks(SEED * 100003 + i), range({"C19": 1500}.get(prop, 300) * k)), "clock_histories")
    if prop == "C19": judge(out, window(SEED), "window_histories")
    if prop == "C19": judge(out, P(lambda i: live_clocks(SEED * 700003 + i), range(500 * k)), "live_clock_histories")
    judge(out, P(lambda i: registry(SEED * 200003 + i), range({"C20": 1500}.get(prop, 300) * k)), "registry_histories")
    if prop == "C20":
        for d in (2, 3, 4): judge(out, short_histories(d, SEED), "short_histories_%d" % d)
        import fam_v3       # managers of one namespace meet engines that another one holds
        fam_v3.judge(out, P(lambda i: fam_v3.moves(SEED * 900001 + 4 * i + 1), range(800 * k)), "v3_foreign_engines")
        fam_v3.judge(out, P(lambda i: fam_v3.history(SEED * 800001 + i, hostile=0.4), range(600 * k)), "v3_histories")
