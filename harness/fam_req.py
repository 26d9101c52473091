"""C07..C12 for SNMPv1/SNMPv2c: design model, model-generated behaviours, random histories and interleavings, judged by Requests.tla."""
import json, random
import common, sim, agent, drv, selftest
from common import SEED, THOROUGH

U = 256
def cfg(H, NR, ND, NM, Ps, Ts, kinds, keep, extra=""):
    return ("INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Contract\nCONSTANTS H=%d U=%d NR=%d ND=%d NM=%d Ps={%s} Ts={%s} Kinds={%s} Keep=%s\n%s\n"
            % (H, U, NR, ND, NM, ",".join(map(str, Ps)), ",".join(map(str, Ts)), ",".join('"%s"' % k for k in kinds), "TRUE" if keep else "FALSE", extra))

def design(out):
    """TLC: the design satisfies the contract within bounds."""
    runs = [(5, 2, 1, 1, (2, 3), (4, 5), ("ok", "err", "badcomm"))]
    if THOROUGH: runs += [(6, 2, 2, 1, (2, 3), (4, 5), ("ok", "badcomm")), (6, 3, 1, 1, (2, 3), (5,), ("ok",)), (5, 2, 1, 2, (2,), (4, 5), ("ok", "badver", "badid", "badpdu"))]
    for H, NR, ND, NM, Ps, Ts, kinds in runs:
        r = common.tlc("ReqModel", cfg(H, NR, ND, NM, Ps, Ts, kinds, False, "VIEW view"), timeout=700)
        if not r.ok: raise common.TLCError("ReqModel: the design breaks the contract\n" + r.out[-4000:])
        out.add("design_states", r.distinct)
    if THOROUGH: out.add("broken_designs_found_out", selftest.run("ReqModel"))

def behaviours(n, depth=26, **kw):
    """Random maximal behaviours of ReqModel, as scripts of environment actions."""
    a = dict(H=9, NR=4, ND=4, NM=3, Ps=(2, 3, 4), Ts=(1, 4, 6), kinds=("ok", "err", "badcomm", "badid", "badver", "badpdu"))
    a.update(kw)
    r = common.tlc("ReqModel", cfg(a["H"], a["NR"], a["ND"], a["NM"], a["Ps"], a["Ts"], a["kinds"], True, "INVARIANT Export"),
                   extra=("-simulate", "num=%d" % n, "-depth", "60", "-seed", str(SEED)), timeout=600, check=False, workers=1)
    s = {}
    for p in r.printed:
        if isinstance(p, str) and p.startswith("SCN "): s[p[4:]] = 1
    if not s: raise common.TLCError("ReqModel produced no behaviour\n" + r.out[-3000:])
    return [json.loads(x) for x in s]

def oids(r, k=1): return tuple("1.3.6.1.4.1.%d.%d.%d" % (9, r, i) for i in range(1, k + 1))
COMM = {1: b"public", 2: b"secret", 3: b"third", 4: b"pub"}

def make(run, kind, r):
    """A datagram of the given kind aimed at request r -> (octets, how sure we are that it is well-formed)"""
    g = run.rng
    f, raw = run.last(r)
    if raw is None: return None
    n = len(raw["pdu"]["vbs"])
    if kind == "ok": return drv.reply(run, r), "yes"
    if kind == "okmore": return drv.reply(run, r, vbs=[((1, 3, 6, 1, 2, 1, 99, r, i), agent.eint(i)) for i in range(n + 2)]), "yes"
    if kind == "okempty": return drv.reply(run, r, vbs=[]), "yes"
    if kind == "err": return drv.reply(run, r, vbs=raw["pdu"]["vbs"], est=g.choice([1, 2, 3, 5, 18]), eidx=g.randint(0, n)), "yes"
    if kind == "badid": return drv.reply(run, r, did=g.choice([1, -1, 256, 1 << 16])), "yes"
    if kind == "zeroid": return drv.reply(run, r, did=-raw["pdu"]["rid"]), "yes"
    if kind == "badcomm": return drv.reply(run, r, comm=g.choice([b"", raw["comm"][:-1], raw["comm"] + b"x", raw["comm"].upper(), b"other"] + [c for c in COMM.values() if c != raw["comm"]])), "yes"
    if kind == "badver": return drv.reply(run, r, ver=2 if raw["ver"] == 0 else 1), "yes"
    if kind == "badpdu": return drv.reply(run, r, kind=g.choice(["get", "next", "set", "inform", "trap", "report"])), "yes"
    if kind == "echo": return drv.reply(run, r, kind=raw["pdu"]["kind"], vbs=raw["pdu"]["vbs"]), "yes"
    if kind == "badest": return drv.reply(run, r, est=g.choice([19, -1, 255, 1 << 31])), "no"
    if kind == "badeidx": return drv.reply(run, r, est=5, eidx=g.choice([n + 1, -1, 200])), "no"
    if kind == "cut": return drv.reply(run, r, cut=g.randint(1, 12)), "no"
    if kind == "tail": return drv.reply(run, r, tail=bytes([g.randrange(256)])), "no"
    if kind == "v3": return agent.v3_msg(abs(raw["pdu"]["rid"]) & 0x7fffffff, 0, b"", 0, 0, b"", agent.scoped(b"", b"", agent.epdu("response", raw["pdu"]["rid"], 0, 0, raw["pdu"]["vbs"]))), "yes"
    if kind == "junk": return bytes(g.randrange(256) for _ in range(g.randint(0, 60))), "no"
    if kind == "flip":
        b = bytearray(drv.reply(run, r)); b[g.randrange(2)] ^= 1 << g.randrange(8)
        return bytes(b), "no"
    raise KeyError(kind)
GOODK = ("ok", "okmore", "okempty", "err")
BADK = ("badid", "zeroid", "badcomm", "badver", "badpdu", "echo", "badest", "badeidx", "cut", "tail", "v3", "junk", "flip")
def deliver(run, kind, r):
    x = make(run, kind, r)
    if x is not None: run.hear(x[0], mut=x[1])

def newrun(w, nm, rng, strict=True, conc=False, vers=None, share=False):
    run = drv.Run(w, strict, conc)
    run.rng = rng
    random.seed(rng.random())
    run.new_engine(autowait=False)
    for m in range(1, nm + 1):
        v = vers[m - 1] if vers else 1 + m % 2
        run.manager(v, ("10.0.0.%d" % (1 if share else m), 161), COMM[m])
    return run

def finish(run, w):
    """Let every open request come to its end, so that lost results and hangs show."""
    for r in range(1, len(run.h)):
        if not run.rinfo[r].get("over"):
            if run.rng.random() < 0.8: run.wait(r)
            else: run.drop(r)

def replay(hist, seed):
    """One behaviour of ReqModel on the real library."""
    with sim.SeqWorld() as w:
        run = newrun(w, 3, random.Random(seed))
        j = 0
        try:
            for a in hist:
                if a["a"] == "dlv" and not a["idle"]:
                    j += 1
                    w.at(a["t"] * U + (0 if a["early"] else 8 * (j % 8 + 1)), lambda k=a["kind"], r=a["r"]: deliver(run, k, r) if r < len(run.h) else None)
            for a in hist:
                if a["a"] == "dlv":
                    if not a["idle"]: continue
                    run.until(a["t"] * U); deliver(run, a["kind"], a["r"])
                elif a["a"] == "call":
                    run.until(a["t"] * U)
                    run.req(a["m"], oids=oids(len(run.h)), T=a["T"] * U, P=a["P"] * U, auto=a["auto"])
                elif run.h[a["r"]] is not None and not run.rinfo[a["r"]].get("over"):
                    run.until(a["t"] * U)
                    (run.wait if a["a"] == "wait" else run.drop)(a["r"])
            finish(run, w)
        except drv.Stop: pass
        return run.trace()

def history(seed, jitter=False, hostile=0.5, bits=None, length=14):
    """A random history, richer than the model's: bulk and set requests, odd periods, mixed versions, hostile datagrams."""
    g = random.Random(seed)
    sim.GEN_BITS = bits
    try:
        with sim.SeqWorld() as w:
            nm = g.randint(1, 4)
            run = newrun(w, nm, g, strict=not jitter, vers=[g.randint(1, 2) for _ in range(nm)], share=g.random() < 0.5)
            if seed % 8 == 3: w.set_clock(g, 4000)
            try:
                for _ in range(g.randint(3, length)):
                    open_ = [r for r in range(1, len(run.h)) if not run.rinfo[r].get("over")]
                    x = g.random()
                    if x < 0.4 and len(open_) < 6:
                        m = g.randint(1, nm)
                        r = len(run.h)
                        v = run.minfo[m - 1]["ver"]
                        kind = g.choice(["get", "get", "next", "set"] + (["bulk"] if v == 2 else []))
                        k = g.choice([0, 1, 1, 2, 3])
                        kw = {}
                        args = oids(r, k)
                        if kind == "bulk": kw = {k: x for k, x in (("nonRepeaters", g.randint(0, 2)), ("maxRepetitions", g.randint(0, 9))) if g.random() < 0.8}
                        if kind == "set":
                            from snmp.smi import Integer32, OctetString
                            args = [(o, g.choice([Integer32(7), OctetString(b"x" * g.randint(0, 9))])) for o in args]
                        P = g.choice([1, 7, 64, 100, 256, 341, 512, 1000, 1024, 3000])
                        T = g.choice([0, 1, 256, 512, 700, 1024, 2048, 2500]) if P > 20 else g.choice([0, 1, 40, 77])
                        d = g.random()
                        if d < 0.05: P = None
                        if d < 0.03 or 0.05 < d < 0.07 and P > 100: T = None
                        auto = g.random() < 0.25
                        for _ in range(g.choice([0, 1, 1, 2])): plan(run, w, g, r, T or 10240, hostile)
                        run.req(m, kind, args, auto=auto, T=T, P=P, comm=g.choice([None, None, None, b"x", b""]), **kw)
                    elif x < 0.65 and open_:
                        r = g.choice(open_)
                        for _ in range(g.choice([0, 0, 1])): plan(run, w, g, r, 600, hostile)
                        if seed % 8 == 5: w.at(int(w.now) + g.choice([1, 50, 300, 900]), run.interrupt)
                        run.wait(r)
                    elif x < 0.72 and open_: run.drop(g.choice(open_))
                    elif x < 0.87: run.advance(g.choice([0, 1, 100, 256, 512, 1000, 2048]))
                    elif len(run.h) > 1: deliver(run, g.choice(GOODK + BADK), g.randrange(1, len(run.h)))
                    if jitter and g.random() < 0.4:
                        k0, amount = w.reads + g.randint(1, 12), g.choice([1, 255, 256, 512, 1024, 2048])
                        w.jitter = lambda n, k0=k0, amount=amount: amount if n == k0 else 0
                finish(run, w)
            except drv.Stop: pass
            return run.trace()
    finally: sim.GEN_BITS = None

def plan(run, w, g, r, T, hostile):
    """Datagrams that will arrive while the application sleeps."""
    t = w.now + g.choice([0, 1, g.randint(0, max(1, T)), T, max(0, T - 1), T + 1])
    k = g.choice(BADK) if g.random() < hostile else g.choice(GOODK)
    w.at(int(t), lambda: deliver(run, k, r) if r < len(run.h) else None)

def churn(seed, n):
    """Many short requests over a 4-bit identifier space, with a few outstanding for a long time."""
    g = random.Random(seed)
    sim.GEN_BITS = 4
    try:
        with sim.SeqWorld() as w:
            run = newrun(w, 2, g, vers=[1 + seed % 2, 1 + seed % 2] if seed % 3 else [1, 2])
            try:
                keep = []
                for i in range(n):
                    m = g.randint(1, 2)
                    if len(keep) < 2 and g.random() < 0.2:
                        keep.append(run.req(m, oids=oids(len(run.h)), T=1 << 20, P=1 << 21)); continue
                    T = g.choice([64, 100])
                    end = g.choice(["answer", "answer", "timeout", "drop", "auto", "late"])
                    kind = g.choice(["ok", "okempty", "err"])
                    r = len(run.h)
                    if end == "auto":
                        if g.random() < 0.5: w.at(int(w.now) + 10, lambda r=r, kind=kind: deliver(run, kind, r) if r < len(run.h) else None)
                        run.req(m, oids=oids(r), T=T, P=32, auto=True)
                    else:
                        run.req(m, oids=oids(r), T=T, P=32)
                        if run.rinfo[r].get("over"): continue
                        if end == "answer": deliver(run, kind, r); run.wait(r)
                        elif end == "timeout": run.wait(r)
                        elif end == "drop": run.drop(r); deliver(run, "ok", r)
                        else: run.wait(r); deliver(run, "ok", r)
                    if keep and g.random() < 0.05:
                        k = keep.pop()
                        deliver(run, "ok", k); run.wait(k)
                finish(run, w)
            except drv.Stop: pass
            return run.trace()
    finally: sim.GEN_BITS = None

# ---------------------------------------------------------------- interleavings
def conc(policy, plan_, seed=0):
    """Application threads (each with a manager of its own, or sharing one) and the listener, preempted wherever the policy says."""
    g = random.Random(seed)
    with sim.ConcWorld(policy) as w:
        run = newrun(w, len(plan_["vers"]), g, strict=False, conc=True, vers=plan_["vers"])
        run.served = plan_.get("served", False)
        def app(no, m, acts):
            def body():
                mine = []
                for a in acts:
                    if a[0] == "req": mine.append(run.req(m, oids=("1.3.6.1.4.1.9.%d.%d" % (no, len(mine)),), T=a[1], P=a[2], auto=False))
                    elif a[0] == "auto": mine.append(run.req(m, oids=("1.3.6.1.4.1.9.%d.%d" % (no, len(mine)),), T=a[1], P=a[2], auto=True))
                    elif a[0] == "wait": run.wait(mine[a[1]])
                    elif a[0] == "drop": run.drop(mine[a[1]])
                    elif a[0] == "sleep": w.sleep(a[1] / sim.TPS)
            return body
        seen = {}
        def on_send(sock, data, addr):
            run.on_send(sock, data, addr)
            f, raw = run.sends[-1][:2]
            if raw is None: return
            key = (f["addr"], tuple(f["vbs"]))
            seen[key] = seen.get(key, 0) + 1
            for nth, kind in plan_["replies"]:
                if nth == seen[key]:
                    r = run.owner(f, raw)
                    x = make(run, kind, r)
                    if x: w.mail.append(lambda x=x: run.hear(x[0], mut=x[1]))
        w.on_send = on_send
        mgr = plan_.get("mgr") or range(1, len(plan_["apps"]) + 1)
        for n, acts in enumerate(plan_["apps"], 1): w.spawn("app%d" % n, app(n, mgr[n - 1], acts))
        w.spawn("listener", w.listener_loop)
        w.threads[-1].service = True
        w.run()
        if w.hang and not run.hung: run.log("hang", r=0, why=w.hang)
        for t in w.threads:
            if t.error is not None and not isinstance(t.error, drv.Stop): run.log("hang", r=0, why="%s: %r" % (t.name, t.error))
        run.points = w.points
        return run.trace(), w.points

PLANS = [
    dict(vers=[2], apps=[[("auto", 1024, 256)]], replies=[(1, "ok")]),
    dict(vers=[1], apps=[[("auto", 1024, 256)]], replies=[(2, "ok"), (3, "ok")]),
    dict(vers=[2], apps=[[("req", 1024, 512), ("req", 700, 256), ("wait", 1), ("wait", 0)]], replies=[(1, "badid"), (2, "ok")]),
    dict(vers=[2, 2], apps=[[("auto", 1024, 512)], [("auto", 1024, 512)]], replies=[(1, "ok")]),
    dict(vers=[1, 2], apps=[[("req", 1024, 512), ("drop", 0), ("auto", 512, 512)], [("req", 512, 512), ("sleep", 600), ("wait", 0)]], replies=[(1, "ok"), (2, "ok")]),
    dict(vers=[1], apps=[[("req", 512, 300), ("wait", 0)]], replies=[]),
] + [p for v in (1, 2) for p in (
    # several threads share one manager
    dict(vers=[v], mgr=[1, 1], apps=[[("auto", 1024, 512)], [("auto", 900, 256)]], replies=[(1, "ok")], served=True),
    dict(vers=[v], mgr=[1, 1], apps=[[("auto", 1024, 700)], [("auto", 1300, 256)]], replies=[(2, "ok")]),
    dict(vers=[v], mgr=[1, 1], apps=[[("req", 512, 300), ("wait", 0)], [("auto", 300, 200), ("auto", 512, 256)]], replies=[]),
    dict(vers=[v], mgr=[1, 1], apps=[[("req", 1024, 512), ("sleep", 100), ("drop", 0), ("auto", 600, 200)], [("auto", 1024, 300)]], replies=[(3, "ok")]),
    dict(vers=[v], mgr=[1, 1, 1], apps=[[("auto", 512, 200)], [("auto", 512, 300)], [("auto", 400, 150)]], replies=[(2, "badid"), (2, "ok")]),
)]
def interleavings(out, budget, seed):
    """Single preemptions, pairs of preemptions, clock steps and random schedules (sampled in the quick tier)."""
    jobs = []
    for pi, p in enumerate(PLANS):
        names = ["app%d" % (i + 1) for i in range(len(p["apps"]))] + ["listener"]
        pts = conc(sim.Policy(), p)[1]
        jobs += [(pi, q) for q in sim.schedules(random.Random(seed + pi), names, pts, budget)]
    out.add("interleavings", len(jobs))
    return common.pmap(lambda j: conc(j[1], PLANS[j[0]])[0], jobs)

def judge(out, traces, what, focus=None):
    """Validate traces against the contract, looking only at this check's property."""
    if not traces: return
    foc = [focus or out.prop]
    bads, r = common.validate("RequestsTrace", traces, files={"focus.json": json.dumps(foc)})
    out.add(what, len(traces))
    out.add("events", sum(len(t["ev"]) for t in traces))
    out.add("contract_states", r.distinct)
    out.take(bads, traces)

def run(prop):
    import fam_v3
    sim.install()
    out = common.Outcome(prop, "model_checking")
    P = common.pmap
    k = 6 if THOROUGH else 1
    if prop in ("C07", "C09", "C10"): design(out)
    if prop in ("C07", "C09", "C10", "C11"):
        judge(out, P(lambda x: replay(x[1], SEED * 7919 + x[0]), list(enumerate(behaviours(600 * k)))), "model_behaviours")
    n = {"C07": 3000, "C08": 600, "C09": 3000, "C10": 3000, "C11": 1500, "C12": 600}[prop] * k
    judge(out, P(lambda i: history(SEED * 100003 + i, hostile=0.7 if prop == "C07" else 0.35), range(n)), "histories")
    if prop in ("C08", "C11"): judge(out, P(lambda i: churn(SEED * 31 + i, 120), range(48 * k)), "identifier_churn")
    if prop in ("C10", "C12", "C11"): judge(out, P(lambda i: history(SEED * 500009 + i, jitter=True), range(800 * k)), "clock_jitter_histories")
    if prop in ("C12", "C07", "C11", "C08"): judge(out, interleavings(out, {"C12": 300}.get(prop, 40) * k, SEED), "scheduled")
    if prop != "C07":
        for what, tr in fam_v3.traces_for(out, prop, k): fam_v3.judge(out, tr, what)
    out.assumptions = ["virtual clock, locks and sockets: a wait ends exactly at its deadline; computing takes no time unless jitter is injected"]
    return out
