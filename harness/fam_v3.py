"""C13..C17 (and the SNMPv3 half of C08..C12, C25): conforming and hostile agents around the real SNMPv3 manager, judged by V3.tla."""
import json, random
import common, sim, agent, drv, selftest
from agent import v3_msg, scoped, epdu
from common import SEED, THOROUGH

ENG = [b"\x80\x00\x1f\x88\x04engine-%d" % i for i in range(6)]
USERS = [(b"plain", 0, None, None), (b"auth", 1, "md5", None), (b"priv", 2, "sha1", "aes"), (b"priv2", 2, "sha256", "aes"), (b"priv3", 2, "sha512", "des")]
LVL = {0: 0, 1: 1, 2: 3, 3: 2}

class Peer:
    """A conforming agent (RFC 3412, 3414) with the engine's users."""
    def __init__(self, run, addr, engine, boots=3, base=1000):
        self.run, self.addr, self.engine, self.boots, self.base = run, addr, engine, boots, base
        self.n = 0
    def time(self): return self.base + self.run.now() // sim.TPS
    def reboot(self):
        self.boots += 1; self.base = -(self.run.now() // sim.TPS)
    def report(self, raw, counter, lvl=0, **kw):
        self.n += 1
        rid = raw["scoped"]["pdu"]["rid"] if raw["scoped"] else 0
        vbs = [(agent.report_oid(counter), agent.counter_value(self.n + 100))]
        return self.msg(raw, lvl, epdu("report", rid, 0, 0, vbs), **kw)
    def msg(self, raw, lvl, pdu, **kw):
        a = dict(msgid=raw["msgid"], engine=self.engine, boots=self.boots, time=max(0, self.time()), user=raw["user"], ce=None, cn=b"", model=3, badmac=False)
        a.update(kw)
        a["boots"] = min(a["boots"], 2**31 - 1)
        ce = self.engine if a["ce"] is None else a["ce"]
        return v3_msg(a["msgid"], LVL[lvl], a["engine"], a["boots"], a["time"], a["user"], scoped(ce, a["cn"], pdu),
                      self.run.usm.get(a["user"]), model=a["model"], badmac=a["badmac"])
    def lvl(self, raw): return 2 if raw["auth"] and raw["priv"] else 1 if raw["auth"] else 0
    def vbs(self, raw):
        self.n += 1
        return [(o, agent.eint(7000 + 10 * self.n + i)) for i, (o, _) in enumerate(raw["scoped"]["pdu"]["vbs"])]
    def answer(self, raw):
        """What RFC 3414 makes of the message."""
        if raw["engine"] != self.engine: return self.report(raw, "engine")
        u, lvl = raw["user"], self.lvl(raw)
        if u not in self.run.usm: return self.report(raw, "user")
        if self.run.caps[u] < lvl: return self.report(raw, "level")
        if lvl and not raw["genuine"]: return self.report(raw, "digest")
        if lvl and (raw["boots"] != self.boots or abs(raw["time"] - self.time()) > 150): return self.report(raw, "window", lvl=1)
        if raw["scoped"] is None: return self.report(raw, "decrypt", lvl=1)
        return self.msg(raw, lvl, epdu("response", raw["scoped"]["pdu"]["rid"], 0, 0, self.vbs(raw)))

def craft(run, g, peer, sent, kind):
    """A datagram of the given kind related to message `sent` -> (octets, how surely it is well-formed) or None."""
    f, raw = sent
    lvl, u = peer.lvl(raw), raw["user"]
    probe = raw["engine"] == b"" and u == b""
    pdu = raw["scoped"]["pdu"] if raw["scoped"] else None
    rid = pdu["rid"] if pdu else 1
    eng = raw["engine"]
    cap = run.caps.get(u, 0)
    def resp(lvl=lvl, rid=rid, est=0, eidx=0, vbs=None, kind="response", **kw):
        v = vbs if vbs is not None else peer.vbs(raw) if pdu else []
        kw.setdefault("engine", eng); kw.setdefault("ce", kw["engine"])
        return peer.msg(raw, lvl, epdu(kind, rid, est, eidx, v), **kw)
    if kind == "conform": return peer.answer(raw), "yes"
    if kind == "ok": return resp(), "yes"
    if kind == "okempty": return resp(vbs=[]), "yes"
    if kind == "err":
        n = len(pdu["vbs"]) if pdu else 0
        return resp(est=g.choice([1, 2, 5, 18]), eidx=g.randint(0, n), vbs=pdu["vbs"] if pdu else []), "yes"
    if kind == "stronger": return (resp(lvl=g.randint(lvl, cap)), "yes") if cap > lvl else None
    if kind == "weaker": return (resp(lvl=g.randrange(lvl)), "yes") if lvl else None
    if kind == "weaker0": return resp(lvl=0, engine=peer.engine if probe else eng), "yes"
    if kind == "oldboots": return (resp(lvl=lvl, boots=max(0, peer.boots - 1)), "yes") if lvl else None
    if kind == "badid": return resp(msgid=g.choice([raw["msgid"] ^ 1, raw["msgid"] ^ 256, 0, 2**31 - 1, g.choice(run.sends)[1]["msgid"]])), "yes"
    if kind == "badrid": return resp(rid=g.choice([rid + 1, 0, -rid])), "yes"
    if kind == "badengine": return resp(engine=g.choice([e for e in ENG + [b"", eng[:-1], eng + b"x"] if e != eng])), "yes"
    if kind == "badce": return resp(ce=g.choice([e for e in ENG + [b""] if e != eng])), "yes"
    if kind == "badcn": return resp(cn=b"ctx"), "yes"
    if kind == "baduser":
        o = g.choice([x for x in [b"", b"nobody"] + list(run.usm) if x != u])
        return resp(user=o, lvl=min(lvl, max(0, run.caps.get(o, 0)))), "yes"
    if kind == "badmac": return (resp(lvl=max(1, lvl), badmac=True), "yes") if cap else None
    if kind == "fakeauth":          # claims authentication for a user that has none, or with a foreign key
        m = bytearray(resp(lvl=0)); return flag(m, raw, 1 if g.random() < 0.6 else 3), "maybe"
    if kind == "lvl3":
        m = bytearray(resp(lvl=0)); return flag(m, raw, 2), "maybe"
    if kind == "stale": return (resp(lvl=max(1, lvl), time=max(0, peer.time() - g.choice([151, 152, 200, 1000]))), "yes") if cap else None
    if kind == "edge": return (resp(lvl=max(1, lvl), time=max(0, peer.time() - g.choice([149, 150]))), "yes") if cap else None
    if kind == "ahead": return (resp(lvl=max(1, lvl), time=peer.time() + g.choice([1, 5, 150, 151, 1000, 2**31 - 1 - peer.time()])), "yes") if cap else None
    if kind == "boots": return (resp(lvl=max(1, lvl), boots=peer.boots + g.choice([-1, 1, 2])), "yes") if cap else None
    if kind == "maxboots": return (resp(lvl=max(1, lvl), boots=2**31 - 1), "yes") if cap else None
    if kind == "hint": return resp(lvl=0, boots=g.choice([0, 9, 2**31 - 1]), time=g.choice([0, 5, 2**31 - 1])), "yes"
    if kind == "badpdu": return resp(kind=g.choice(["get", "next", "set", "inform", "trap"])), "yes"
    if kind == "model": return resp(model=g.choice([1, 2, 4, 99])), "yes"
    if kind == "cut":
        m = resp(); return m[:len(m) - g.randint(1, len(m) - 1)], "no"
    if kind == "flip":
        if lvl == 0: return None
        m = bytearray(resp()); i = g.randrange(len(m)); m[i] ^= 1 << g.randrange(8)
        return bytes(m), "maybe"
    if kind == "junk": return bytes(g.randrange(256) for _ in range(g.randint(0, 60))), "no"
    if kind == "community": return agent.community_msg(g.randrange(2), b"public", epdu("response", rid, 0, 0, peer.vbs(raw) if pdu else [])), "yes"
    if kind == "late":              # answers an earlier message
        return craft(run, g, peer, g.choice([s[:2] for s in run.sends if s[1] and s[1]["ver"] == 3]), "conform")
    if kind.startswith("rep"):      # rep:<counter>:<auth?>:<engine>
        _, c, a, e = kind.split(":")
        name = {"other": (1, 3, 6, 1, 6, 3, 11, 2, 1, 3, 0), "short": agent.USMSTATS, "plus": agent.USMSTATS + (2, 0, 0), "far": agent.USMSTATS + (7, 0)}.get(c, c)
        en = {"peer": peer.engine, "same": eng, "new": g.choice([x for x in ENG if x != eng]), "empty": b"", "held": g.choice(ENG)}[e]
        al = 1 if a == "auth" else 2 if a == "priv" else 0
        kw = {}
        if a == "bad":
            if cap: al, kw = 1, dict(badmac=True)
        if cap < al: return None
        if g.random() < 0.15: kw["boots"] = peer.boots + g.choice([-1, 1, 0])
        return peer.report(raw, name, lvl=al, engine=en, ce=en, **kw), "yes"
    raise KeyError(kind)
def flag(m, raw, fl):
    """Overwrite msgFlags in place."""
    i = bytes(m).find(b"\x04\x01", 4)
    m[i + 2] = fl | (m[i + 2] & 4)
    return bytes(m)

GOOD = ("conform", "conform", "ok", "err", "okempty")
BAD = ("stronger", "weaker", "badid", "badrid", "badengine", "badce", "badcn", "baduser", "badmac", "fakeauth", "lvl3", "stale", "edge", "ahead", "boots",
       "maxboots", "hint", "badpdu", "model", "cut", "flip", "junk", "community", "late")
def reports(g):
    return "rep:%s:%s:%s" % (g.choice(["engine", "engine", "window", "window", "level", "user", "digest", "decrypt", "other", "short", "plus", "far"]),
                             g.choice(["no", "no", "auth", "auth", "priv", "bad"]), g.choice(["peer", "same", "same", "new", "empty"]))
def any_kind(g, hostile):
    x = g.random()
    if x > hostile: return g.choice(GOOD)
    return reports(g) if x < hostile * 0.5 else g.choice(BAD)

def oids(r, k=1): return tuple("1.3.6.1.4.1.9.%d.%d" % (r, i) for i in range(1, k + 1))

class Scene:
    """Engine, users, managers (each with its own agent) inside a world."""
    def __init__(self, w, g, nm, strict=True, conc=False, given=None, loss=0.2, hostile=0.0, lat=(0, 1, 100, 300), peers=None, share=False, users=None, boots=None):
        self.w, self.g = w, g
        random.seed(g.random())         # identifiers and salts of the library
        self.run = run = drv.Run(w, strict, conc)
        run.rng = g
        self.loss, self.hostile, self.lat = loss, hostile, lat
        self.replies = ("conform",)
        e = run.new_engine(autowait=False)
        for name, cap, a, p in USERS: run.add_user(name, cap, a, p)
        run.uid(b"nobody")
        for x in ENG: run.eid(x)
        self.peers = []
        for m in range(1, nm + 1):
            eng = ENG[(m - 1) % 2] if peers is None else ENG[peers[m - 1]]
            addr = ("10.0.0.%d" % m, 161)
            gv = given[m - 1] if given else g.random() < 0.4
            kw = {}
            if gv: kw["engineID"] = eng if gv is True else ENG[gv]
            run.manager(3, addr, defaultUserName=USERS[g.randrange(4)][0].decode(), **kw)
            self.peers.append(Peer(run, addr, eng, boots=g.choice([0, 1, 3, 2**31 - 3]) if boots is None else boots, base=g.choice([0, 5, 1000, 100000])))
        run.after_send = self.on_send
    def peer(self, addr):
        for p in self.peers:
            if p.addr == addr: return p
    def on_send(self, f, raw, addr):
        p, g = self.peer(addr), self.g
        if p is None or raw["ver"] != 3: return
        if g.random() >= self.loss:
            self.later(g.choice(self.lat), p, (f, raw), g.choice(self.replies))
            if g.random() < 0.1: self.later(g.choice(self.lat) + 7, p, (f, raw), "conform")
        if g.random() < self.hostile: self.later(g.choice(self.lat), p, (f, raw), any_kind(g, 1.0))
    def later(self, dt, p, sent, kind):
        def fn():
            x = craft(self.run, self.g, p, sent, kind)
            if x is not None: self.run.hear(x[0], mut=x[1], addr=p.addr)
        self.w.at(int(self.w.now) + dt, fn)
    def shot(self, kind=None):
        """A datagram related to some earlier message arrives now."""
        s = [x for x in self.run.sends if x[1] is not None and x[1]["ver"] == 3]
        if not s: return
        s = self.g.choice(s[-6:])
        p = self.peer(s[3])
        x = craft(self.run, self.g, p, s[:2], kind or any_kind(self.g, 0.8))
        if x is not None: self.run.hear(x[0], mut=x[1], addr=p.addr)
    def finish(self):
        run = self.run
        for r in range(1, len(run.h)):
            if not run.rinfo[r].get("over"):
                if self.g.random() < 0.85: run.wait(r)
                else: run.drop(r)
        run.unhold()
        for e in ENG: run.claim(e, "zz")

def history(seed, jitter=False, hostile=0.4, bits=None, length=12, **kw):
    g = random.Random(seed)
    sim.GEN_BITS = bits
    try:
        with sim.SeqWorld() as w:
            nm = g.choice([1, 1, 2, 2, 3])
            s = Scene(w, g, nm, strict=not jitter, loss=g.choice([0, 0.3, 0.7, 1]), hostile=g.choice([0, hostile, hostile]), **kw)
            run = s.run
            if seed % 8 == 3: w.set_clock(g, 4000)
            try:
                if seed % 8 == 6:
                    for e in ENG:
                        if g.random() < 0.4: run.hold(e)
                for _ in range(g.randint(3, length)):
                    open_ = [r for r in range(1, len(run.h)) if not run.rinfo[r].get("over")]
                    x = g.random()
                    if x < 0.45 and len(open_) < 6:
                        m = g.randint(1, nm)
                        r = len(run.h)
                        kind = g.choice(["get", "get", "next", "set", "bulk"])
                        args, kw2 = oids(r, g.choice([1, 1, 2, 3])), {}
                        if kind == "bulk": kw2 = {k: x for k, x in (("nonRepeaters", g.randint(0, 2)), ("maxRepetitions", g.randint(0, 9))) if g.random() < 0.8}
                        if kind == "set":
                            from snmp.smi import Integer32, OctetString
                            args = [(o, g.choice([Integer32(7), OctetString(b"x" * g.randint(0, 9))])) for o in args]
                        P = g.choice([64, 100, 256, 341, 512, 1000, 1024, 3000])
                        T = g.choice([0, 1, 256, 512, 700, 1024, 2048, 2500, 4096])
                        d = g.random()
                        if d < 0.05: P = None
                        if d < 0.03 or 0.05 < d < 0.07 and P > 100: T = None
                        x = g.random()
                        lvl = user = None
                        if x < 0.6: user, cap = g.choice(USERS)[:2]; lvl = g.randint(0, cap)
                        elif x < 0.7: user = g.choice(USERS)[0]; lvl = g.randint(0, 2)
                        elif x < 0.75: user, lvl = b"nobody", g.randint(0, 2)
                        elif x < 0.80: user, lvl = b"", 0
                        if user is not None: kw2.update(lvl=lvl, user=user)
                        run.req(m, kind, args, auto=g.random() < 0.3, T=T, P=P, **kw2)
                    elif x < 0.65 and open_:
                        if seed % 8 == 5: w.at(int(w.now) + g.choice([1, 50, 300, 900]), run.interrupt)
                        run.wait(g.choice(open_))
                    elif x < 0.72 and open_: run.drop(g.choice(open_))
                    elif x < 0.84: run.advance(g.choice([0, 1, 100, 256, 512, 1000, 2048, 160 * 1024]))
                    elif x < 0.86: g.choice(s.peers).reboot()
                    elif x < 0.88: g.choice(s.peers).engine = g.choice(ENG)
                    elif x < 0.90: run.claim(g.choice(ENG), "zz")
                    elif x < 0.92 and seed % 8 == 6: (run.hold(g.choice(ENG)) if g.random() < 0.7 else run.unhold())
                    elif hostile: s.shot()
                    if jitter and g.random() < 0.4:
                        k0, amount = w.reads + g.randint(1, 12), g.choice([1, 255, 256, 512, 1024, 2048])
                        w.jitter = lambda n, k0=k0, amount=amount: amount if n == k0 else 0
                s.finish()
            except drv.Stop: pass
            return run.trace()
    finally: sim.GEN_BITS = None

# ---------------------------------------------------------------- every kind of datagram in every phase
COUNTERS = ("engine", "window", "level", "user", "digest", "decrypt", "other", "short", "plus", "far")
ALLKINDS = tuple(dict.fromkeys(GOOD + BAD + ("weaker0", "oldboots"))) + tuple("rep:%s:%s:%s" % (c, a, e) for c in COUNTERS for a in ("no", "auth", "priv", "bad") for e in ("peer", "same", "new", "empty"))
PHASES = ("probe", "data", "retransmitted", "answered", "second")
def matrix():
    return [(k, ph, u, lvl, gv) for k in ALLKINDS for ph in PHASES for u in range(len(USERS)) for lvl in range(USERS[u][1] + 1) for gv in (False, True)
            if not (gv and ph == "probe")]
def phase(kind, ph, u, lvl, gv, seed):
    """One datagram (twice) at one point of a request's life, then the genuine answer, or silence."""
    g = random.Random(seed)
    with sim.SeqWorld() as w:
        s = Scene(w, g, 1, given=[gv], loss=1, peers=[0], boots=3)
        run, p = s.run, s.peers[0]
        def arrive(kind, n=-1):
            v3 = [x for x in run.sends if x[1] is not None]
            if not v3: return
            x = craft(run, g, p, v3[n][:2], kind)
            if x is not None: run.hear(x[0], mut=x[1], addr=p.addr)
        rounds = 2 if not gv and lvl == 0 else 3
        try:
            if ph == "second":
                run.req(1, oids=oids(1), T=1024, P=512, user=USERS[u][0], lvl=lvl)
                for _ in range(rounds): arrive("conform")
                run.wait(1)
            r = run.req(1, oids=oids(len(run.h), 2), T=2048, P=600, user=USERS[u][0], lvl=lvl)
            r2 = run.req(1, oids=oids(len(run.h)), T=3000, P=900, user=USERS[2][0], lvl=g.randint(0, 2))
            if ph in ("data", "retransmitted"):
                for _ in range(rounds - 1): arrive("conform")
            if ph == "retransmitted":
                w.at(int(w.now) + 700, lambda: (arrive(kind), arrive(kind)))
                if g.random() < 0.7:
                    for i in range(1, 4): w.at(int(w.now) + 700 + 100 * i, lambda: arrive("conform", -1 - g.randrange(2)))
            else:
                if ph == "answered":
                    for _ in range(rounds + 1): arrive("conform")
                arrive(kind, g.choice([-1, -1, 0]))
                if g.random() < 0.6: run.advance(g.choice([0, 100, 700]))
                arrive(kind, g.choice([-1, -2, 0]) if len(run.sends) > 1 else -1)
                if g.random() < 0.7:
                    for i in range(1, 5): w.at(int(w.now) + 100 * i, lambda: arrive("conform", -1 - g.randrange(min(2, len(run.sends)))))
            run.wait(r)
            arrive(kind)
            s.finish()
        except drv.Stop: pass
        return run.trace()

# ---------------------------------------------------------------- engines that move, and messages that pretend they did
MOVES = ("conform", "conform", "ok", "ok", "weaker0", "rep:engine:no:new", "rep:engine:no:new", "rep:engine:no:peer", "rep:engine:auth:new", "rep:window:auth:same", "rep:window:no:same", "err")
def moves(seed):
    """A few requests in a row, each answered as by an engine that keeps its ID, changes it, or is impersonated."""
    g = random.Random(seed)
    with sim.SeqWorld() as w:
        s = Scene(w, g, 1, given=[g.random() < 0.5], loss=1, peers=[0], boots=3)
        run, p = s.run, s.peers[0]
        def arrive(kind, n):
            v3 = [x for x in run.sends if x[1] is not None]
            if not v3: return
            x = craft(run, g, p, v3[max(n, -len(v3))][:2], kind)
            if x is not None: run.hear(x[0], mut=x[1], addr=p.addr)
        try:
            if seed % 4 == 1:
                for e in ENG[:3]:
                    if g.random() < 0.4: run.hold(e)
            for _ in range(g.randint(2, 4)):
                new = []
                for _ in range(g.choice([1, 1, 2, 3])):
                    u = g.randrange(len(USERS))
                    new.append(run.req(1, oids=oids(len(run.h)), T=g.choice([700, 2048] if not run.holds else [50, 700, 2048, 2048]), P=600, user=USERS[u][0], lvl=g.choice([0, USERS[u][1], g.randint(0, USERS[u][1])])))
                if run.holds and g.random() < 0.4: run.advance(60)
                for _ in range(g.randint(1, 5)):
                    if run.holds and g.random() < 0.15: run.unhold()
                    if g.random() < 0.2: p.engine = g.choice(ENG[:3])
                    arrive(g.choice(MOVES), g.choice([-1, -1, -1, -2, -3]))
                if g.random() < 0.3: run.advance(g.choice([100, 650]))
                for r in new:
                    if g.random() < 0.8: (run.wait if g.random() < 0.8 else run.drop)(r)
            s.finish()
        except drv.Stop: pass
        return run.trace()

# ---------------------------------------------------------------- the design model
U = 256
KINDS = ("answer", "err", "forge", "stale", "window", "moved", "userA", "userU")
def cfg(H, NR, ND, eng0, Ps, Ts, lv, kinds, NB, keep, extra=""):
    S = lambda x: "{" + ",".join('"%s"' % k if isinstance(k, str) else str(k) for k in x) + "}"
    return ("INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Contract NoLoop NoneHeld\nCONSTANTS H=%d U=%d NR=%d ND=%d Eng0=%d Ps=%s Ts=%s Lvls=%s Kinds=%s NB=%d Keep=%s\n%s\n"
            % (H, U, NR, ND, eng0, S(Ps), S(Ts), S(lv), S(kinds), NB, "TRUE" if keep else "FALSE", extra))

def design(out):
    """TLC: the design satisfies the contract within bounds."""
    runs = [(4, 1, 2, 0, (2, 3), (4,), 1), (4, 2, 1, 1, (2,), (4,), 0)]
    if THOROUGH: runs += [(4, 1, 2, 1, (2, 3), (4,), 1), (5, 2, 2, 0, (2,), (4,), 0), (4, 2, 2, 1, (2,), (3,), 0), (4, 2, 1, 0, (2,), (1, 3), 1)]
    for H, NR, ND, e0, Ps, Ts, NB in runs:
        r = common.tlc("V3Model", cfg(H, NR, ND, e0, Ps, Ts, (0, 1), KINDS, NB, False, "VIEW view"), timeout=800, heap="12g")
        if not r.ok: raise common.TLCError("V3Model: the design breaks the contract\n" + r.out[-4000:])
        out.add("design_states", r.distinct)
    if THOROUGH: out.add("broken_designs_found_out", selftest.run("V3Model"))

def behaviours(n, eng0):
    """Random maximal behaviours of V3Model, as scripts of environment actions."""
    r = common.tlc("V3Model", cfg(9, 4, 7, eng0, (2, 3, 4), (1, 4, 6), (0, 1), KINDS + ("answer2", "answer3"), 1, True, "INVARIANT Export"),
                   extra=("-simulate", "num=%d" % n, "-depth", "70", "-seed", str(SEED + eng0)), timeout=700, check=False, workers=1)
    s = {}
    for p in r.printed:
        if isinstance(p, str) and p.startswith("SCN "): s[p[4:]] = 1
    if not s: raise common.TLCError("V3Model produced no behaviour\n" + r.out[-3000:])
    return [json.loads(x) for x in s]

CRAFT = {"answer": "conform", "answer2": "conform", "answer3": "conform", "err": "err", "forge": "weaker0", "stale": "oldboots", "window": "rep:window:auth:same",
         "moved": "rep:engine:no:new", "userA": "rep:user:auth:same", "userU": "rep:user:no:same"}
def replay(hist, eng0, seed):
    """One behaviour of V3Model on the real library."""
    g = random.Random(seed)
    with sim.SeqWorld() as w:
        s = Scene(w, g, 1, given=[bool(eng0)], loss=1, peers=[0], boots=3)
        run, p = s.run, s.peers[0]
        j = 0
        def arrive(n, kind):
            v3 = [x for x in run.sends if x[1] is not None]
            if n > len(v3): return
            x = craft(run, g, p, v3[n - 1][:2], CRAFT[kind])
            if x is not None: run.hear(x[0], mut=x[1], addr=p.addr)
        try:
            for a in hist:
                if a["a"] == "dlv" and not a["idle"]:
                    j += 1
                    w.at(a["t"] * U + (0 if a["early"] else 8 * (j % 8 + 1)), lambda n=a["n"], k=a["kind"]: arrive(n, k))
            for a in hist:
                if a["a"] == "dlv":
                    if not a["idle"]: continue
                    run.until(a["t"] * U); arrive(a["n"], a["kind"])
                elif a["a"] == "call":
                    run.until(a["t"] * U)
                    u = g.randrange(1, 4)
                    run.req(1, oids=oids(len(run.h)), T=a["T"] * U, P=a["P"] * U, auto=a["auto"], user=USERS[u][0], lvl=0 if a["lvl"] == 0 else g.randint(1, USERS[u][1]))
                elif a["a"] == "reboot":
                    run.until(a["t"] * U); p.reboot()
                elif run.h[a["r"]] is not None and not run.rinfo[a["r"]].get("over"):
                    run.until(a["t"] * U)
                    (run.wait if a["a"] == "wait" else run.drop)(a["r"])
            s.finish()
        except drv.Stop: pass
        return run.trace()

# ---------------------------------------------------------------- interleavings
def conc(policy, plan, seed=0):
    """Application threads (each with a manager of its own, or sharing one), the listener thread, and agents that answer as the plan says."""
    g = random.Random(seed)
    with sim.ConcWorld(policy) as w:
        mgr = plan.get("mgr") or list(range(1, len(plan["apps"]) + 1))
        n = max(mgr)
        s = Scene(w, g, n, strict=False, conc=True, given=plan.get("given", [False] * n), loss=0, peers=plan.get("peers"), share=plan.get("share", False), users=plan.get("users"), boots=3)
        run = s.run
        for p in s.peers:               # one engine has one clock, however many addresses it has
            p.base = next(q.base for q in s.peers if q.engine == p.engine)
        counts = {}
        def on_send(f, raw, addr):
            if raw["ver"] != 3: return
            p = s.peer(addr)
            k = counts[addr] = counts.get(addr, 0) + 1
            for nth, kind in plan.get("replies", ((0, "conform"),)):
                if nth in (0, k):
                    x = craft(run, g, p, (f, raw), kind)
                    if x is not None: w.mail.append(lambda x=x: run.hear(x[0], mut=x[1], addr=addr))
        run.after_send = on_send
        run.served = plan.get("served", "replies" not in plan)
        def app(no, m, acts):
            def body():
                mine = []
                for a in acts:
                    if a[0] in ("req", "auto"):
                        kw = dict(user=USERS[a[3]][0], lvl=a[4]) if len(a) > 3 else {}
                        mine.append(run.req(m, oids=("1.3.6.1.4.1.9.%d.%d" % (no, len(mine)),), T=a[1], P=a[2], auto=a[0] == "auto", **kw))
                    elif run.rinfo[mine[a[1]] if a[0] in ("wait", "drop") else 0] is not None and run.rinfo[mine[a[1]]].get("over"): pass
                    elif a[0] == "wait": run.wait(mine[a[1]])
                    elif a[0] == "drop": run.drop(mine[a[1]])
                    elif a[0] == "sleep": w.sleep(a[1] / sim.TPS)
                    elif a[0] == "reboot": s.peers[m - 1].reboot()
            return body
        for k, acts in enumerate(plan["apps"], 1): w.spawn("app%d" % k, app(k, mgr[k - 1], acts))
        w.spawn("listener", w.listener_loop)
        w.threads[-1].service = True
        w.run()
        if w.hang and not run.hung: run.log("hang", r=0, why=w.hang)
        bad = bool(w.hang)
        for t in w.threads:
            if t.error is not None and not isinstance(t.error, drv.Stop): run.log("hang", r=0, why="%s: %r" % (t.name, t.error)); bad = True
        if not bad and not run.hung:
            for m in range(1, n + 1):
                if plan.get("dropmgr"): run.drop_manager(m)
            for e in ENG[:2]: run.claim(e, "zz")
        return run.trace(), w.points

PLANS = [
    # discovery, then the answer; then a second request in the discovered state
    dict(apps=[[("auto", 1024, 512, 0, 0), ("auto", 1024, 512, 1, 1)]]),
    # two requests behind one probe, waited for in either order
    dict(apps=[[("req", 1024, 512, 1, 1), ("req", 1024, 512, 2, 2), ("wait", 1), ("wait", 0)]]),
    dict(apps=[[("req", 2048, 512, 2, 2), ("req", 512, 256, 1, 0), ("req", 1024, 256, 1, 1), ("drop", 0), ("wait", 1), ("wait", 2)]]),
    # two managers of the same engine and user
    dict(apps=[[("auto", 1024, 512, 2, 2)], [("auto", 1024, 512, 2, 2)]], peers=[0, 0]),
    dict(apps=[[("req", 1024, 300, 2, 2), ("wait", 0), ("auto", 700, 300, 2, 1)], [("auto", 1024, 512, 3, 2), ("auto", 512, 512, 2, 2)]], given=[True, False], peers=[0, 1]),
    # engine given: time synchronization by report, repeated reports
    dict(apps=[[("req", 1024, 512, 1, 1), ("req", 1024, 512, 0, 0), ("wait", 0), ("wait", 1)]], given=[True], replies=((0, "conform"), (2, "conform"), (3, "rep:window:auth:same"))),
    # the agent stays silent, then answers late
    dict(apps=[[("req", 700, 256, 1, 1), ("wait", 0), ("auto", 512, 200, 0, 0)]], replies=((3, "conform"), (4, "conform"), (5, "conform"))),
    dict(apps=[[("req", 300, 512, 0, 0), ("req", 1024, 512, 1, 1), ("wait", 0), ("wait", 1)]], replies=((2, "conform"), (3, "conform"), (4, "conform"), (5, "conform"))),
    # reports that end a request
    dict(apps=[[("auto", 512, 512, 1, 1), ("req", 512, 300, 2, 2), ("wait", 1)]], replies=((1, "conform"), (2, "rep:digest:no:same"), (3, "conform"), (4, "rep:user:auth:same"), (5, "conform"))),
    # two threads encrypt for the same user of the same engine, by either cipher
    dict(apps=[[("auto", 512, 300, 4, 2), ("auto", 512, 300, 2, 2)], [("auto", 512, 300, 4, 2), ("auto", 512, 300, 2, 2)]], given=[True, True], peers=[0, 0]),
    dict(apps=[[("req", 700, 256, 4, 2), ("wait", 0)], [("req", 700, 300, 4, 2), ("wait", 0)]], given=[True, True], peers=[0, 0], replies=((1, "conform"), (2, "conform"), (6, "conform"), (7, "conform"))),
    # the engine ID changes under way
    dict(apps=[[("req", 1024, 400, 1, 1), ("wait", 0), ("auto", 1024, 400, 1, 1)]], replies=((1, "conform"), (2, "rep:engine:no:new"), (3, "conform"), (4, "conform"), (5, "conform"))),
    dict(apps=[[("req", 512, 512, 1, 1), ("sleep", 100), ("drop", 0), ("auto", 512, 300, 1, 1)], [("req", 512, 512, 1, 1), ("drop", 0)]], peers=[0, 0]),
    # several threads share one manager: discovery, synchronization, silence, and a late answer
    dict(mgr=[1, 1], apps=[[("auto", 1024, 512, 1, 1)], [("auto", 900, 256, 2, 2)]]),
    dict(mgr=[1, 1], apps=[[("auto", 1024, 512, 1, 1)], [("auto", 900, 256, 2, 2)]], given=[True]),
    dict(mgr=[1, 1], apps=[[("auto", 700, 256, 0, 0)], [("auto", 600, 200, 1, 1)]], given=[True], replies=((5, "conform"), (6, "conform"), (7, "conform"))),
    dict(mgr=[1, 1], apps=[[("req", 512, 200, 1, 1), ("wait", 0)], [("auto", 400, 150, 0, 0), ("auto", 512, 300, 2, 2)]], replies=((1, "conform"),)),
    dict(mgr=[1, 1, 1], apps=[[("req", 900, 300, 1, 1), ("sleep", 50), ("drop", 0)], [("auto", 1024, 300, 2, 1)], [("auto", 900, 200, 0, 0)]], replies=((1, "conform"), (2, "conform"), (6, "conform"), (7, "conform"))),
]
def interleavings(budget, seed, plans=None):
    """Single preemptions, pairs of preemptions, clock steps and random schedules (sampled in the quick tier)."""
    jobs, plans = [], plans or PLANS
    for pi, p in enumerate(plans):
        names = ["app%d" % (i + 1) for i in range(len(p["apps"]))] + ["listener"]
        pts = conc(sim.Policy(), p, pi)[1]
        jobs += [(pi, q) for q in sim.schedules(random.Random(seed + pi), names, pts, budget)]
    return common.pmap(lambda j: conc(j[1], plans[j[0]], j[0])[0], jobs)

def judge(out, traces, what, focus=None):
    if not traces: return
    foc = [focus or out.prop]
    bads, r = common.validate("V3Trace", traces, files={"focus.json": json.dumps(foc)})
    out.add(what, len(traces))
    out.add("events", sum(len(t["ev"]) for t in traces))
    out.add("contract_states", r.distinct)
    out.take(bads, traces)

def traces_for(out, prop, k):
    """SNMPv3 executions for one property -> [(name, traces)]."""
    P = common.pmap
    if prop in ("C09", "C10", "C11", "C13", "C14", "C15", "C16", "C17"):
        n = 60 if prop in ("C09", "C10", "C11", "C14") else 150
        bs = [(h, e0) for e0 in (0, 1) for h in behaviours(n * k, e0)]
        yield "v3_model_behaviours", P(lambda x: replay(x[1][0], x[1][1], SEED * 7919 + x[0]), list(enumerate(bs)))
    hostile = {"C15": 0.6, "C16": 0.6, "C17": 0.6}.get(prop, 0.4)
    n = {"C08": 600, "C12": 600}.get(prop, 2000) * k
    yield "v3_histories", P(lambda i: history(SEED * 100003 + i, hostile=hostile if i % 3 else 0.0), range(n))
    if prop in ("C13", "C14", "C15", "C16", "C17"):
        mx = matrix()
        random.Random(SEED).shuffle(mx)
        yield "v3_datagram_matrix", P(lambda x: phase(*x[1], seed=SEED * 31 + x[0]), list(enumerate(mx[:3000 * k])))
    if prop in ("C09", "C11", "C13", "C14", "C15", "C16", "C17"):
        yield "v3_moving_engines", P(lambda i: moves(SEED * 700001 + i), range((2500 if prop in ("C13", "C14") else 1000) * k))
    if prop in ("C08", "C11"):
        yield "v3_identifier_churn", P(lambda i: churn(SEED * 37 + i, 80), range(48 * k))
        yield "v3_narrow_histories", P(lambda i: history(SEED * 61 + i, hostile=0.4 if i % 2 else 0, bits=8, length=20), range(400 * k))
    if prop in ("C10", "C11", "C12"): yield "v3_clock_jitter_histories", P(lambda i: history(SEED * 500009 + i, jitter=True, hostile=hostile), range(600 * k))
    if prop in ("C08", "C11", "C12", "C14", "C15"):
        yield "v3_scheduled", interleavings({"C12": 220}.get(prop, 24) * k, SEED)

def churn(seed, n):
    """Many short requests over 4-bit identifier spaces, with a few outstanding for a long time."""
    g = random.Random(seed)
    sim.GEN_BITS = 4
    try:
        with sim.SeqWorld() as w:
            s = Scene(w, g, 2, given=[bool(seed & 1), False], loss=0, lat=(0, 0, 20), peers=[0, seed & 1], boots=3)
            run = s.run
            try:
                keep = []
                for i in range(n):
                    m = g.randint(1, 2)
                    s.loss = g.choice([0, 0, 1])
                    s.replies = g.choice([("conform",), ("conform", "conform", "err"), ("conform", "rep:user:auth:same")])
                    if g.random() < 0.1: w.at(int(w.now) + 10, run.interrupt)
                    u = g.randrange(len(USERS))
                    kw = dict(user=USERS[u][0], lvl=g.randint(0, USERS[u][1]))
                    if len(keep) < 1 and g.random() < 0.1:
                        s.loss = 1
                        keep.append(run.req(m, oids=oids(len(run.h)), T=1 << 18, P=1 << 19, **kw)); continue
                    auto = g.random() < 0.4
                    r = run.req(m, oids=oids(len(run.h)), T=100, P=64, auto=auto, **kw)
                    if not run.rinfo[r].get("over"): (run.wait if g.random() < 0.7 else run.drop)(r)
                    if g.random() < 0.3: s.shot("conform")
                    if keep and g.random() < 0.1:
                        k = keep.pop()
                        run.drop(k)
                s.finish()
            except drv.Stop: pass
            return run.trace()
    finally: sim.GEN_BITS = None

def run(prop):
    sim.install()
    out = common.Outcome(prop, "model_checking")
    k = 6 if THOROUGH else 1
    if prop in ("C13", "C17"): design(out)
    for what, tr in traces_for(out, prop, k): judge(out, tr, what)
    out.assumptions = ["virtual clock, locks and sockets: a wait ends exactly at its deadline; computing takes no time unless jitter is injected",
                       "the agent's side (BER, keys, MAC, ciphers) is an independent implementation that shares only hashlib and OpenSSL/pycryptodome primitives"]
    return out
