"""Are the design checks able to fail?  Each entry breaks a design model; TLC must then find that it violates its contract."""
import concurrent.futures, os
import common

REQ = (
 ("resends without passing the present", "Serve(r) == [r EXCEPT !.next = @ + ((now - @) \\div r.P + 1) * r.P]", "Serve(r) == [r EXCEPT !.next = @ + r.P]", 1),
 ("refreshes late", "next |-> now + P, st", "next |-> now + P + 1, st", 1),
 ("resends after the timeout", "/\\ r.next <= now /\\ now < r.exp", "/\\ r.next <= now", 2),
 ("resends what is answered", "Due(r) == r.st = \"live\" /\\ r.ans = <<>>", "Due(r) == r.st = \"live\"", 2),
 ("resends what was dropped", "/\\ rq' = Finish(rq, i) /\\ Emit(<<EvDrop(i)>>)", "/\\ rq' = rq /\\ Emit(<<EvDrop(i)>>)", 2),
 ("accepts any community", "good == kind \\in {\"ok\", \"err\"}", "good == kind \\in {\"ok\", \"err\", \"badcomm\"}", 1),
 ("accepts any identifier", "good == kind \\in {\"ok\", \"err\"}", "good == kind \\in {\"ok\", \"err\", \"badid\"}", 1),
 ("accepts any version", "good == kind \\in {\"ok\", \"err\"}", "good == kind \\in {\"ok\", \"err\", \"badver\"}", 1),
 ("accepts any PDU", "good == kind \\in {\"ok\", \"err\"}", "good == kind \\in {\"ok\", \"err\", \"badpdu\"}", 1),
 ("loses errors", "kind = \"err\" THEN 5 ELSE 0, <<100", "kind = \"err\" THEN 0 ELSE 0, <<100", 1),
 ("does not look for an answer", "IF q[i].ans # <<>> \\/ q[i].exp <= now", "IF q[i].exp <= now", 1),
 ("gives up early", "q[i].exp <= now\n", "q[i].exp <= now + 1\n", 1),
 ("gives up late", "q[i].exp <= now\n", "q[i].exp < now\n", 1),
 ("answers the wrong request", "THEN [rq EXCEPT ![i].ans =", "THEN [rq EXCEPT ![1].ans =", 2),
 ("forgets an answer", "out |-> IF a = <<>> THEN \"timeout\" ELSE", "out |-> IF a # <<>> /\\ a[1] = 0 THEN \"timeout\" ELSE", 1),
)
def req_cfg(nr):
    import fam_req
    return fam_req.cfg(6 if nr == 1 else 5, nr, 1, 1, (2, 3), (2, 6) if nr == 1 else (2, 5), ("ok", "err", "badcomm", "badid", "badver", "badpdu") if nr == 1 else ("ok",), False, "VIEW view")

V3 = (
 ("asks twice about the same window", "(IF m.gen # r.gen THEN y ELSE LET z", "(IF FALSE THEN y ELSE LET z", (4, 1, 6, 1, (3,), (4,), 1)),
 ("takes answers below the level", "m.probe \\/ p.lvl < m.lvl \\/ p.eng # m.eng", "m.probe \\/ p.eng # m.eng", (3, 1, 1, 1, (2,), (2,), 0)),
 ("takes probe responses", "m.probe \\/ p.lvl < m.lvl \\/ p.eng # m.eng THEN y", "p.lvl < m.lvl \\/ p.eng # m.eng THEN y", (3, 1, 1, 0, (2,), (2,), 0)),
 ("takes stale messages", "Timely(est, p.boots, p.time, T(now)))", "TRUE)", (3, 2, 2, 1, (2,), (2,), 1)),
 ("keeps the queue", "Fold(Op, [x EXCEPT !.q = <<>>], x.q)\n\n", "Fold(Op, x, x.q)\n\n", (3, 2, 1, 0, (2,), (2,), 0)),
 ("does not send what was held", "LET Op(y, i) == IF Idle(y.rq[i]) THEN y ELSE Send(y, i, eng) IN", "LET Op(y, i) == y IN", (3, 2, 1, 0, (2,), (3,), 0)),
 ("believes any unknown user", "IF p.lvl > 0 THEN (IF r.done THEN y ELSE [y EXCEPT !.rq[i].exc = exc, !.rq[i].done = TRUE])", "IF TRUE THEN (IF r.done THEN y ELSE [y EXCEPT !.rq[i].exc = exc, !.rq[i].done = TRUE])", (3, 1, 1, 1, (2,), (2,), 0)),
 ("forgets the unknown user", "ELSE IF r.exc = <<>> THEN [y EXCEPT !.rq[i].exc = exc] ELSE y", "ELSE y", (3, 1, 1, 1, (2,), (2,), 0)),
 ("refreshes without passing the present", "!.rq[i].next = @ + ((now - @) \\div y.rq[i].P + 1) * y.rq[i].P]", "!.rq[i].next = @ + y.rq[i].P]", (6, 1, 0, 1, (2,), (6,), 0)),
 ("does not refresh", "/\\ y.rq[i].next <= now\n", "/\\ FALSE\n", (4, 1, 0, 1, (2,), (4,), 0)),
 ("gives up late", "IF x.rq[i].done \\/ x.rq[i].exp <= now", "IF x.rq[i].done \\/ x.rq[i].exp < now", (4, 1, 0, 1, (2,), (2,), 0)),
 ("gives up early", "IF x.rq[i].done \\/ x.rq[i].exp <= now", "IF x.rq[i].done \\/ x.rq[i].exp <= now + 1", (4, 1, 0, 1, (2,), (3,), 0)),
 ("sends below the level", "ELSE [own |-> i, eng |-> e, lvl |-> r.lvl,", "ELSE [own |-> i, eng |-> e, lvl |-> 0,", (3, 1, 0, 1, (2,), (2,), 0)),
 ("invents a time", "time |-> IF r.lvl = 0 THEN 0 ELSE TimeNow(x.est[e], T(now))]", "time |-> 77]", (3, 1, 0, 1, (2,), (2,), 0)),
 ("does not start again", "Quiet(ms) == CASE ms = \"wait\" -> \"new\" [] ms = \"syncing\" -> \"unsync\" [] OTHER -> ms", "Quiet(ms) == ms", (4, 2, 0, 0, (2,), (1, 3), 0)),
 ("follows an engine that is the same", "(IF p.eng = r.eng THEN y ELSE OnReport(y, i, p.eng))", "OnReport(y, i, p.eng)", (3, 1, 6, 0, (3,), (3,), 0)),
 ("hears the second answer", "IF r.done THEN z ELSE [z EXCEPT !.rq[i].done = TRUE, !.rq[i].resp = <<p.est, <<100 + nd>>>>]", "[z EXCEPT !.rq[i].done = TRUE, !.rq[i].resp = <<p.est + 1, <<100 + nd>>>>]", (3, 1, 1, 1, (2,), (2,), 0)),
)
def v3_cfg(a):
    import fam_v3
    H, NR, ND, e0, Ps, Ts, NB = a
    return fam_v3.cfg(H, NR, ND, e0, Ps, Ts, (0, 1), fam_v3.KINDS, NB, False, "VIEW view")

USM = (
 ("believes hints over messages", "IF t.in /\\ t.auth THEN t ELSE [in", "IF FALSE THEN t ELSE [in", (6, 1, 1, 1)),
 ("never learns", "IF ~t.in \\/ ~t.auth \\/ b > t.boots THEN new", "IF ~t.in \\/ b > t.boots THEN new", (6, 1, 1, 1)),
 ("ignores reboots", "\\/ b > t.boots THEN new", "THEN new", (7, 1, 1, 1)),
 ("goes back", "ELSE IF b = t.boots /\\ tm > (now - t.born) \\div TPS THEN new ELSE t", "ELSE IF b = t.boots THEN new ELSE t", (7, 1, 1, 1)),
 ("forgets the boots", "ELSE IF b = t.boots /\\ tm >", "ELSE IF tm >", (7, 1, 1, 1)),
 ("wide window", "- tm <= Window /\\ t.boots", "- tm <= Window + 1 /\\ t.boots", (7, 1, 1, 1)),
 ("narrow window", "- tm <= Window /\\ t.boots", "- tm < Window /\\ t.boots", (7, 1, 1, 1)),
 ("no window", "((now - t.born) \\div TPS) - tm <= Window /\\", "", (7, 1, 1, 1)),
 ("takes older boots", "DVerify(t, b, tm) == b = t.boots", "DVerify(t, b, tm) == b <= t.boots", (7, 1, 1, 1)),
 ("takes exhausted boots", "<= Window /\\ t.boots < MaxInt", "<= Window", (7, 1, 1, 0)),
 ("takes tampered messages", "accept == key # 0 /\\ genuine /\\", "accept == key # 0 /\\", (5, 1, 1, 1)),
 ("needs no claim", "accept == key # 0 /\\ genuine /\\ c = key", "accept == genuine", (5, 1, 1, 1)),
 ("lets claims be stolen", "ok == reg[x][1] \\in {0, i}", "ok == TRUE", (5, 1, 2, 1)),
 ("drops every claim", "IF @[2] = 1 THEN <<0, 0>> ELSE <<i, @[2] - 1>>]", "<<0, 0>>]", (6, 1, 2, 1)),
 ("releases for anyone", "IF reg[x][1] # i THEN reg ELSE", "IF FALSE THEN reg ELSE", (6, 1, 2, 1)),
)
def usm_cfg(a):
    import fam_usm
    N, NX, NN, mb = a
    return fam_usm.MODEL % ("PROPERTY Forward", N, NX, NN, "1024, 153600, 154624", 2, mb, "FALSE", "VIEW view")

MUX = (
 ("leaves the stop in the pipe", "pipe' = pipe - 1 /\\ done' = TRUE", "pipe' = pipe /\\ done' = TRUE", None),
 ("does not stop", "pipe' = pipe - 1 /\\ done' = TRUE", "pipe' = pipe - 1 /\\ done' = FALSE", None),
 ("stops after a round", "IF done THEN pc' = \"out\"", "IF TRUE THEN pc' = \"out\"", None),
 ("hears the newest first", "d |-> Head(kq[f])[1], from", "d |-> kq[f][Len(kq[f])][1], from", None),
 ("hears on the wrong socket", "Emit([k |-> \"hear\", s |-> f,", "Emit([k |-> \"hear\", s |-> 3 - f,", None),
 ("drops what it found readable", "kq' = [kq EXCEPT ![f] = Tail(@)]", "kq' = [kq EXCEPT ![f] = <<>>]", None),
 ("hears it again", "kq' = [kq EXCEPT ![f] = Tail(@)]", "kq' = kq", None),
 ("serves the unregistered", "{s \\in Registered(cs) : kq[s] # <<>>}", "{s \\in DOMAIN kq : kq[s] # <<>>}", None),
 ("starves one socket", "{s \\in Registered(cs) : kq[s] # <<>>}", "{s \\in Registered(cs) \\ {2} : kq[s] # <<>>}", None),
 ("loses the sender", "d |-> Head(kq[f])[1], from |-> TRUE]", "d |-> Head(kq[f])[1], from |-> FALSE]", None),
)
def mux_cfg(a):
    return "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Contract Conserved\nPROPERTY Stops Delivers\nCONSTANTS NS=2 ND=3 NL=2 Keep=FALSE\n"

MODELS = {"ReqModel": (REQ, req_cfg), "V3Model": (V3, v3_cfg), "UsmModel": (USM, usm_cfg), "MuxModel": (MUX, mux_cfg)}

def run(module):
    """Number of broken designs found out; raises if one is not."""
    muts, cfg = MODELS[module]
    with open(os.path.join(common.SPEC, module + ".tla")) as f: text = f.read()
    def one(m):
        name, old, new, a = m
        if text.count(old) < 1: raise common.TLCError("%s: cannot apply %r" % (module, name))
        r = common.tlc(module, cfg(a), files={module + ".tla": text.replace(old, new)}, workers=1, timeout=600, check=False, heap="2g")
        return name, bool(r.violated), r.out
    with concurrent.futures.ThreadPoolExecutor(6) as ex: res = list(ex.map(one, muts))
    for name, found, out in res:
        if not found: raise common.TLCError("%s: the design that %s satisfies the contract\n%s" % (module, name, out[-1500:]))
    return len(res)

if __name__ == "__main__":
    import sys
    common.setup_repo_import()
    for m in sys.argv[1:] or MODELS:
        muts, cfg = MODELS[m]
        for x in muts:
            MODELS[m] = ((x,), cfg)
            try: run(m); print(m, "ok    ", x[0], flush=True)
            except common.TLCError as e: print(m, "MISSED", x[0], str(e)[-300:].replace("\n", " | ") if "-v" in sys.argv else "", flush=True)
