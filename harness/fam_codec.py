"""C01-C04: encoding, decoding, construction and OID algebra against Codec.tla / Ber.tla."""
import itertools, random
import common
from common import Outcome, SEED, THOROUGH, validate
from codec_lib import *

def run(prop):
    return {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C26": c26}[prop]()

def chunk(evs, size=150):
    """Traces of bounded length and roughly bounded bulk."""
    out, cur, bulk = [], [], 0
    for e in evs:
        cur.append(e); bulk += len(e.get("bs", ())) + len(e.get("out", ()) if isinstance(e.get("out"), list) else ())
        if len(cur) >= size or bulk > 20000:
            out.append({"ev": cur}); cur, bulk = [], 0
    if cur: out.append({"ev": cur})
    return out

def decide(out, evs, rule, nontrivial=None, **cov):
    """Validate, then re-validate past each finding so that one bad event does not hide the rest of its trace."""
    traces = chunk(evs)
    bads, res = validate("CodecTrace", traces)
    out.take(bads, traces)
    seen = {repr(e) for e in evs}
    out.coverage = dict(states=res.distinct, transitions=res.generated, traces_validated_against_impl=len(traces),
                        evaluations=len(evs), distinct_nontrivial=len(seen if nontrivial is None else {repr(e) for e in evs if nontrivial(e)}),
                        rule=rule, samples=[shorten(e) for e in (evs[len(evs) // 3], evs[len(evs) // 2], evs[-1])], **cov)
    return out

def shorten(e):
    s = repr(e)
    return s if len(s) < 600 else s[:600] + "..."

def rawtlv(L, ber, data, tail, form, expected, left=True):
    """ber.decode() of data (+ tail), from bytes (copied or viewed) or from inside a larger view."""
    x = data + bytes(tail)
    if form == 2: x = L.subbytes(b"\x30\x1f" + x + b"\x99", 2, 2 + len(x))
    b = dict(err="", tail=list(tail), rest=[], cls=0, con=False, num=[], body=[])
    kw = dict(copy=False) if form == 1 else {}
    try:
        res = ber.decode(x, expected, left, **kw) if expected is not None else ber.decode(x, leftovers=left, **kw)
        if expected is not None: res = (expected, *(res if left else (res,)))
        t, body = res[0], res[1]
        b.update(cls=int(t.cls), con=bool(t.constructed), num=mag(t.number), body=list(body[:]), rest=list(res[2][:]) if left else [])
    except ber.ParseError: b["err"] = "parse"
    except Exception as x: b["err"] = "OTHER:" + type(x).__name__
    return b

# ------------------------------------------------------------------ C01
def c01():
    out = Outcome("C01", "model_checking")
    L, g, evs = Lib(), Gen(SEED), []
    r = g.r
    tails = [[], [5, 0], [0], [48, 130, 255]]
    def case(v, ty=None, forms=(0, 1, 2)):
        ty = ty or v["t"]
        e = dict(op="enc", v=v, ty=ty, err="", out=[], back=[])
        try:
            o = L.build(v)
            e["out"] = list(o.encode())
        except Exception as x:
            e["err"] = "OTHER:" + type(x).__name__
            evs.append(e); return
        for f in forms:
            data, tail = bytes(e["out"]), []
            if f == 0:
                err, back, rest = L.decode(ty, data, False)
            elif f == 1:
                tail = r.choice(tails)
                err, back, rest = L.decode(ty, data + bytes(tail), True)
            else:
                tail = r.choice(tails)
                s = L.subbytes(b"\x30" * 3 + data + bytes(tail) + b"\x99", 3, 3 + len(data) + len(tail))
                err, back, rest = L.decode(ty, s, True)
            b = dict(err=err, tail=tail, rest=rest, eq=False, v=dict(t="Null"))
            if not err:
                b["v"] = L.view(back)
                # not every composite defines equality on decoded fields; security parameters carry decoder state
                try:
                    b["eq"] = bool(back == o) and not bool(back != o)
                except Exception as x:
                    b["err"] = "OTHER:eq:" + type(x).__name__
            e["back"].append(b)
        evs.append(e)
    # integers: every byte-length boundary of every type; small values exhaustively
    for t in INTS:
        for n in edge_ints(*RANGE[t]):
            case(dict(t=t, **num(n)), forms=(r.choice((0, 1, 2)),))
    for n in range(-300, 301, 1 if THOROUGH else 3):
        case(dict(t="Integer32", **num(n)), forms=(1,))
    # octet strings of every length around the length boundaries
    for t in ("OctetString", "Opaque"):
        for n in list(range(0, 20)) + [125, 126, 127, 128, 129, 130, 253, 254, 255, 256, 257, 258]:
            case(dict(t=t, d=[(7 * i + n) % 256 for i in range(n)]), forms=(0, r.choice((1, 2))))
    for n in (65535, 32768) if THOROUGH else (65535,):
        case(dict(t="OctetString", d=[i % 251 for i in range(n)]), forms=(1,))
    for d in itertools.product((0, 1, 127, 128, 255), repeat=4):
        if THOROUGH or r.random() < .15: case(dict(t="IpAddress", d=list(d)), forms=(r.randrange(3),))
    for t in NULLS: case(dict(t=t))
    # OIDs: all first/second pairs, every sub-identifier boundary in each position, extreme lengths
    for x in range(3):
        for y in range(40):
            case(dict(t="OID", ids=[mag(x), mag(y)] + ([mag(g.subid())] if y % 2 else [])), forms=(r.randrange(3),))
    for n in edge_ints(0, 2**32 - 1):
        case(dict(t="OID", ids=[mag(1), mag(3), mag(n)]), forms=(r.randrange(3),))
        case(dict(t="OID", ids=[mag(2), mag(39), mag(n), mag(0), mag(g.subid())]), forms=(r.randrange(3),))
    for n in range(2, 129, 9 if not THOROUGH else 1): case(g.oid(n), forms=(r.randrange(3),))
    case(g.oid(127)); case(g.oid(128)); case(dict(t="OID", ids=[mag(2), mag(39)] + [mag(2**32 - 1)] * 126))
    # composites, with content pushed across the length boundaries
    reps = 60 if THOROUGH else 14
    for ty in STRUCTS:
        for i in range(reps):
            case(g.any(ty, big=i % 3 == 2), ty, forms=(r.choice((0, 1, 2)), r.choice((1, 2))))
    for ty in ("VarBind", "VarBindList", "ResponsePDU", "Message", "ScopedPDU", "SNMPv3Message"):
        base = g.any(ty)
        for pad in (range(60, 135) if THOROUGH else range(90, 132, 3)):
            def fill(v):
                if v["t"] == "VarBindList":
                    return dict(t="VarBindList", c=[dict(t="VarBind", c=[g.oid(2), dict(t="OctetString", d=[pad] * pad)])])
                if v["t"] == "VarBind":
                    return dict(t="VarBind", c=[g.oid(2), dict(t="Opaque", d=[pad] * pad)])
                if v["t"] in PDUS:      # keep the error index valid
                    return dict(v, c=[v["c"][0], g.I(0), g.I(0), fill(v["c"][3])])
                return dict(v, c=[fill(x) if "c" in x else x for x in v["c"]]) if "c" in v else v
            case(fill(base), ty, forms=(r.choice((0, 1, 2)),))
    for st in range(19):
        for ix in range(0, 4):
            l = g.vbl(3)
            if st or not ix:
                case(dict(t=r.choice(PDUS), c=[g.I(g.int_in("Integer32")), g.I(st), g.I(ix), l]), forms=(0,))
    for f in (0, 1, 3, 4, 5, 7): case(dict(t="MessageFlags", d=[f]))
    # bare TLVs: every class, primitive and constructed, tag numbers around every width, bodies around the length borders
    import snmp.ber as ber
    nums = [0, 1, 2, 29, 30, 31, 32, 126, 127, 128, 129, 255, 256, 16383, 16384, 2**21 - 1, 2**21, 2**28, 2**31, 2**32 - 1]
    for number in nums:
        for cls in range(4):
            for con in (False, True):
                for n in r.sample((0, 1, 126, 127, 128, 255, 256, 300), 2) + ([65535, 65536] if cls == con == 1 and number == 31 else []):
                    body = bytes((n + i) % 256 for i in range(n))
                    tag = ber.Tag(number, con, ber.Tag.Class(cls)) if r.random() < .7 or con or cls else ber.Tag(number)
                    e = dict(op="tlv", num=mag(number), cls=cls, con=con, body=list(body), err="", out=[], back=[])
                    try: e["out"] = list(ber.encode(tag, body))
                    except Exception as x: e["err"] = "OTHER:" + type(x).__name__
                    else:
                        for form in range(3): e["back"].append(rawtlv(L, ber, bytes(e["out"]), r.choice(tails), form, tag if r.random() < .5 else None))
                    evs.append(e)
    decide(out, evs, "one evaluation = one value built from its parts, encoded and decoded back (whole, with trailing octets, "
                     "inside a larger buffer); octets and every field compared by TLC with Ber.tla")
    out.assumptions = ["OIDs of fewer than two sub-identifiers have no BER encoding of their own and are excluded."]
    return out

# ------------------------------------------------------------------ C02
def c02():
    out = Outcome("C02", "model_checking")
    L, g, evs, seen = Lib(), Gen(SEED), [], set()
    r = g.r
    counts = {"": 0, "parse": 0}
    def case(ty, bs, left=None, form=None):
        left = (r.random() < .3) if left is None else left
        form = r.randrange(3) if form is None else form
        bs = bytes(bs)
        if (ty, bs, left) in seen: return
        seen.add((ty, bs, left))
        data = bs if form else L.subbytes(b"\x02\x01" + bs + b"\x00\x05\x00", 2, 2 + len(bs))
        err, o, rest = L.decode(ty, data, left)
        e = dict(op="dec", ty=ty, bs=list(bs), left=left, err=err, v=dict(t="Null"), rest=rest)
        if not err:
            try: e["v"] = L.view(o)
            except Exception as x: e["err"] = "OTHER:" + type(x).__name__
        counts[e["err"]] = counts.get(e["err"], 0) + 1
        evs.append(e)
    # exhaustive short bodies per primitive tag
    al = [0, 1, 39, 40, 119, 127, 128, 129, 255]
    for ty in INTS[:5] + ["OID", "OctetString", "IpAddress", "Opaque"] + NULLS + ["MessageFlags", "VersionOnlyMessage"]:
        tag = TAGS[ty]
        for n in range(0, 4 if THOROUGH else 3):
            for b in itertools.product(al, repeat=n):
                if ty in ("OctetString", "Opaque") + tuple(NULLS) and r.random() > .1: continue
                case(ty, bytes([tag, n]) + bytes(b), False)
        for first in range(256):         # every length octet, every tag octet
            case(ty, bytes([tag, first, 1, 2]))
            case(ty, bytes([first, 1, 1]))
    # integer widths and range borders
    for ty in INTS[:5]:
        for n in range(1, 11):
            for first in (0, 1, 0x7f, 0x80, 0xff):
                for rest in (0, 0xff, 0x80):
                    case(ty, bytes([TAGS[ty], n, first] + [rest] * (n - 1)), False)
                    if n > 1: case(ty, bytes([TAGS[ty], n, first, rest] + [r.randrange(256) for _ in range(n - 2)]), False)
    # OID sub-identifier widths, padding and truncation
    for n in range(1, 8):
        for first in (0x80, 0x81, 0x8f, 0x90, 0xff):
            for last in (0, 0x7f, 0x80):
                case("OID", bytes([6, n + 1, 0x2b] + [first] + [0xff] * (n - 2) + [last] * (n > 1)), False)
    for x in range(256): case("OID", bytes([6, 2, x, 1]), False); case("OID", bytes([6, 1, x]), False)
    for n in (125, 126, 127, 128, 200): case("OID", bytes([6, 0x81, n, 0x2b] + [1] * (n - 1)), False)
    # long-form lengths
    for ty in ("Integer32", "OctetString", "VarBindList", "Null"):
        for n in range(0, 9):
            for k in (0, 1, 2, 3):
                case(ty, bytes([TAGS[ty], 0x80 + n]) + (k.to_bytes(n, "big") if n or k == 0 else b"") + b"\x01" * k)
    case("OctetString", b"\x04\x83\x01\x00\x00" + b"a" * 65536, False)
    case("OctetString", b"\x04\x82\xff\xff" + b"a" * 65535, False)
    for t in ([31], [0x1f, 2], [0x1f, 0x80, 2], [0x1f, 0x81], [0x3f, 16], [0x1f, 0x84, 0x80, 2], [0x5f, 1]):
        for ty in ("Integer32", "VarBindList", "Counter32"): case(ty, bytes(t) + b"\x01\x05")
    # bare TLVs with arbitrary tag octets, with and without an expected tag
    import snmp.ber as ber
    def raw(bs, expected=None):
        left = r.random() < .5
        b = rawtlv(L, ber, bytes(bs), (), r.randrange(3), expected, left)
        b.pop("tail")
        evs.append(dict(b, op="rtlv", bs=list(bs), left=left,
                        exp=[] if expected is None else [dict(cls=int(expected.cls), con=bool(expected.constructed), num=mag(expected.number))]))
    alt = [0, 1, 2, 30, 31, 32, 127, 128, 129, 255]
    for first in (0x1f, 0x3f, 0x5f, 0x9f, 0xff, 0x1e, 0x30, 0):
        for n in range(0, 4):
            for b in itertools.product(alt, repeat=n):
                if n < 3 or THOROUGH or r.random() < .15:
                    raw([first, *b])
                    if n == 2: raw([first, *b, 1, 7, 9])
    tags = [ber.Tag(n, c, ber.Tag.Class(k)) for n in (0, 2, 30, 31, 127, 128, 16384) for c in (False, True) for k in range(4)]
    for t in tags:
        good = t.encode() + b"\x02\x05\x06"
        raw(good, t)
        for u in r.sample(tags, 5): raw(good, u)
        for i in range(len(good)): raw(good[:i], t if r.random() < .5 else None)
        raw(good + b"\x00", t)
    # structured: valid encodings, every truncation, mutations and lies about lengths at every level
    reps = 12 if THOROUGH else 4
    ST = [s for s in STRUCTS if s not in PDUS] + ["GetRequestPDU", "ResponsePDU", "ReportPDU"]
    NEW = [0, 1, 2, 4, 5, 6, 0x30, 0x40, 0x41, 0x42, 0x43, 0x44, 0x46, 0x80, 0x81, 0x82, 0x84, 0xa0, 0xa2, 0xa5, 0xa8, 0x7f, 0xff, 0x1f]
    for ty in ST:
        for rep in range(reps):
            v = g.any(ty)
            b = enc(v)
            case(ty, b, False); case(ty, b, True)
            case(ty, b + bytes([r.randrange(256)]), False); case(ty, b + b"\x05\x00", True)
            if len(b) > 260: continue
            for i in (range(len(b)) if rep == 0 else sorted(r.sample(range(len(b)), min(len(b), 12)))):
                case(ty, b[:i])
            ps = parts(b)
            for (i, l, s, e) in ps if len(ps) < 40 else r.sample(ps, 40):
                for nl in {b[l] + 1, max(0, b[l] - 1), 0, 127, 0x80, 0x81, 0x84, 0xff, r.randrange(256)} if THOROUGH else {b[l] + 1, max(0, b[l] - 1), r.choice((0, 127, 0x80, 0x81, 0xff))}:
                    case(ty, b[:l] + bytes([nl % 256]) + b[l + 1:])
                for nt in r.sample(NEW, 6 if THOROUGH else 3):
                    case(ty, b[:i] + bytes([nt]) + b[i + 1:])
                # re-encode the enclosing lengths after dropping, duplicating or appending inside
                for op in ("drop", "dup", "pad", "cut", "tail", "blank"):
                    if THOROUGH or r.random() < .5: case(ty, splice(b, i, op, r))
            for _ in range(30 if THOROUGH else 10):
                i = r.randrange(len(b)); case(ty, b[:i] + bytes([r.choice((b[i] ^ (1 << r.randrange(8)), r.choice(NEW)))]) + b[i + 1:])
            for _ in range(4):
                i = r.randrange(len(b) + 1); case(ty, b[:i] + bytes([r.choice(NEW)]) + b[i:])
    # field value borders inside structures
    I, O = g.I, g.O
    vb = lambda k: dict(t="VarBindList", c=[g.varbind() for _ in range(k)])
    for ty in PDUS + ["GetBulkRequestPDU"]:
        for a in (-1, 0, 1, 5, 18, 19, 20, 255, 2**31 - 1, -2**31):
            for b in (-1, 0, 1, 2, 3, 255, -2**31):
                if ty in ("ResponsePDU", "GetBulkRequestPDU") or r.random() < .3:
                    case(ty, enc(dict(t=ty, c=[I(g.int_in("Integer32")), I(a), I(b), vb(2)])), False)
        case(ty, enc(dict(t=ty, c=[dict(t="Counter64", **num(1)), I(0), I(0), vb(0)])), False)
    for m in ("Message", "MessageV1", "SNMPv3Message", "VersionOnlyMessage"):
        for ver in (-1, 0, 1, 2, 3, 4, 255, 256, 2**31 - 1):
            v = g.any(m)
            case(m, enc(dict(v, t=v["t"], c=[I(ver)] + v["c"][1:])), False)
        for p in PDUS + ["GetBulkRequestPDU"]:
            if m in ("Message", "MessageV1"):
                case(m, enc(dict(t="Message", c=[I(1), O(b"public"), g.pdu(p)])), False)
        for t in (0xa4, 0xa7, 0xa9, 0xbf, 0x30):
            if m in ("Message", "MessageV1"):
                p = bytearray(enc(g.pdu("GetRequestPDU"))); p[0] = t
                body = enc(I(0)) + enc(O(b"c")) + bytes(p)
                case(m, b"\x30" + enc_len(len(body)) + body, False)
    for i_ in (-1, 0, 1, 2**31 - 1):
        for sz in (0, 483, 484, 485, -1, 2**31 - 1):
            for f in (0, 1, 2, 3, 4, 6, 7, 8, 0xf8, 0xff):
                for sm in (-1, 0, 1, 2, 3, 4, 255):
                    if THOROUGH or r.random() < .12 or sm == 3 and sz == 484 and i_ == 1 or f == 4 and sz == 484 and i_ == 1 or f == 4 and sm == 3:
                        case("HeaderData", enc(dict(t="HeaderData", c=[I(i_), I(sz), dict(t="MessageFlags", d=[f]), I(sm)])), False)
                        if r.random() < .2:
                            v = g.v3(); v["c"][1] = dict(t="HeaderData", c=[I(i_), I(sz), dict(t="MessageFlags", d=[f]), I(sm)])
                            case("SNMPv3Message", enc(v), False)
    for n in (0, 1, -1, -2**31, 2**31 - 1):
        for k in (1, 2):
            v = g.usm(); v["c"][k] = I(n); case("UsmSecurityParameters", enc(v), False)
    for ty in ALLTYPES:                       # pure noise
        for _ in range(60 if THOROUGH else 15):
            n = r.randrange(0, 25)
            case(ty, bytes([TAGS[ty], n] + [r.choice(NEW + [r.randrange(256)]) for _ in range(n)]))
    decide(out, evs, "one evaluation = one octet string decoded as one type; the verdict of Canon() in Ber.tla (value, refuse, or "
           "unconstrained) is compared by TLC with the value or exception of the real decoder",
           decoded=counts[""], refused=counts["parse"])
    out.assumptions = ["Where BER leaves room (indefinite length octet, empty or non-minimal integers and sub-identifiers, NULL with "
                       "content, reserved flag bits, noError with an index) either accepting or refusing is allowed."]
    return out

def splice(b, at, op, r):
    """Change the content of the TLV starting at `at` and repair every enclosing length."""
    def rebuild(i, end):
        res = b""
        while i < end:
            j = i + 1; l = b[j]; j += 1
            if l >= 128: k = l - 128; l = int.from_bytes(b[j:j + k], "big"); j += k
            body = rebuild(j, j + l) if b[i] & 32 else b[j:j + l]
            whole = None
            if i == at:
                if op == "drop": whole = b""
                elif op == "dup": whole = 2 * (bytes([b[i]]) + enc_len(len(body)) + body)
                elif op == "pad": body = b"\x00" + body
                elif op == "cut": body = body[:-1]
                elif op == "tail": body = body + bytes([r.choice((0, 5, 0x80, 255))])
                elif op == "blank": body = b""
            res += whole if whole is not None else bytes([b[i]]) + enc_len(len(body)) + body
            i = j + l
        return res
    return rebuild(0, len(b))

# ------------------------------------------------------------------ C03
def c03():
    out = Outcome("C03", "model_checking")
    L, g, evs = Lib(), Gen(SEED), []
    r = g.r
    def attempt(e, f):
        try: f(e); e["err"] = ""
        except ValueError: e["err"] = "ValueError"
        except Exception as x: e["err"] = "OTHER:" + type(x).__name__
        evs.append(e)
    wide = edge_ints(-2**66, 2**66) + [2**80, -2**80, 10**30, -10**30]
    for t in INTS:
        c = L.c[t]
        for n in wide + [r.randrange(-2**33, 2**33) for _ in range(200 if THOROUGH else 40)] + [r.randrange(-2**65, 2**65) for _ in range(20)]:
            attempt(dict(op="con", kind="int", ty=t, arg=num(n), rep=num(0)), lambda e: e.update(rep=num(c(n).value)))
    for n in (0, 1, 2, 255, 256, 65534, 65535, 65536, 65537, 70000, 1 << 17):
        for form in range(2):
            d = bytes(i % 251 for i in range(n))
            arg = d if form else L.subbytes(b"xy" + d + b"z", 2, 2 + n)
            attempt(dict(op="con", kind="oct", ty="OctetString", len=n, same=False), lambda e: e.update(same=L.c["OctetString"](arg).data == d))
    def oid(ids):
        attempt(dict(op="con", kind="oid", ty="OID", arg=[num(x) for x in ids], rep=[]), lambda e: e.update(rep=[mag(x) for x in L.c["OID"](*ids)]))
    for a in (-1, 0, 1, 2, 3, 4, 100, 2**32):
        oid([a])
        for b in (-1, 0, 1, 39, 40, 41, 255, 2**32): oid([a, b]); oid([a, b, 7])
    oid([])
    for p in (2, 3, 7):
        for x in (-2**32, -1, 0, 1, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**33, 2**64): oid([1, 3] + [5] * (p - 2) + [x] + [6] * 2)
    for n in (126, 127, 128, 129, 130, 200): oid([1, 3] + [1] * (n - 2)); oid([2, 39] + [2**32 - 1] * (n - 2))
    for s in (itertools.product(("0", "1", "9", "10", "99", "100", "127", "128", "255", "256", "260", "999"), repeat=4) if THOROUGH else
              [tuple(r.choice(("0", "1", "10", "128", "255", "256", "300")) for _ in range(4)) for _ in range(250)]):
        a = ".".join(s)
        attempt(dict(op="con", kind="ip", ty="IpAddress", arg=[ord(x) for x in a], rep=[], d=[]),
                lambda e: (lambda o: e.update(rep=[ord(x) for x in o.addr], d=list(o.data)))(L.c["IpAddress"](a)))
    for a in ("", "localhost", "1.2.3.4.5", "1.2.3.4x", "1.2.3.256", "256.1.1.1", "1..2.3", ".1.2.3", "1.2.3.", "-1.2.3.4", "1.2.3.-4",
              "::1", "1.2.3.4:161", "1,2,3,4", "1.2.3.4.", "1.2.3.4/8", "a.b.c.z", "1.2.3.1000"):
        attempt(dict(op="con", kind="ip", ty="IpAddress", arg=[ord(x) for x in a], rep=[], d=[]),
                lambda e: (lambda o: e.update(rep=[ord(x) for x in o.addr], d=list(o.data)))(L.c["IpAddress"](a)))
    # equality matrix
    pool = []
    for t in INTS:
        for n in (0, 1, 127, 128, 255, 2**31 - 1): pool.append(dict(t=t, **num(n)))
        if RANGE[t][0] < 0: pool += [dict(t=t, **num(n)) for n in (-1, -128, -2**31)]
    for d in ([], [0], [1], [127, 0, 0, 1], [127, 0, 0, 2], [0, 0, 0, 0], [0] * 5):
        for t in ("OctetString", "Opaque") + (("IpAddress",) if len(d) == 4 else ()): pool.append(dict(t=t, d=d))
    pool += [dict(t=t) for t in NULLS]
    for ids in ([0, 0], [0, 1], [1, 3], [1, 3, 0], [1, 3, 6], [1, 3, 6, 0], [1, 3, 6, 2**32 - 1], []): pool.append(dict(t="OID", ids=[mag(x) for x in ids]))
    pool += [g.prim() for _ in range(30)]
    objs = [L.build(v) for v in pool]
    again = [L.build(v) for v in pool]
    for i, a in enumerate(pool):
        for j, b in enumerate(pool):
            e = dict(op="eq", a=a, b=b, err="", out=False, ne=False)
            try: e["out"] = (objs[i] == again[j]) is True; e["ne"] = (objs[i] != again[j]) is True
            except Exception as x: e["err"] = type(x).__name__
            evs.append(e)
    decide(out, evs, "one evaluation = one construction (in range and out of range) or one comparison of two objects, decided by TLC")
    out.assumptions = ["Address strings that the platform accepts although they are not plain dotted quads are unconstrained."]
    return out

# ------------------------------------------------------------------ C04
def c04():
    out = Outcome("C04", "model_checking")
    L, g, evs = Lib(), Gen(SEED), []
    r = g.r
    OID = L.c["OID"]
    from snmp.asn1 import OBJECT_IDENTIFIER
    M = lambda ids: [mag(x) for x in ids]
    def name(x):
        if isinstance(x, OBJECT_IDENTIFIER.BadPrefix): return "BadPrefix"
        if isinstance(x, OBJECT_IDENTIFIER.IndexDecodeError): return "IndexDecodeError"
        if isinstance(x, ValueError): return "ValueError"
        if isinstance(x, IndexError): return "IndexError"
        return "OTHER:" + type(x).__name__
    def attempt(e, f):
        try: f(e); e["err"] = ""
        except Exception as x: e["err"] = name(x)
        evs.append(e)
    # text
    texts = [g.ids(n) for n in (2, 3, 5, 9) for _ in range(30)] + [[], [1], [0], [2], [1, 3], [0, 0], [2, 39, 2**32 - 1], [1, 3] + [2**32 - 1] * 126] + [[1, 3, x] for x in edge_ints(0, 2**32 - 1)]
    for ids in texts:
        o = OID(*ids)
        e = dict(op="text", ids=M(ids), str=[ord(c) for c in str(o)], parsed=[], dotted=[], perr="", derr="", peq=False)
        try: p = OID.parse(str(o)); e["parsed"] = M(p); e["peq"] = p == o
        except Exception as x: e["perr"] = name(x)
        try: e["dotted"] = M(OID.parse("." + str(o)))
        except Exception as x: e["derr"] = name(x)
        evs.append(e)
    # order, prefix: a small alphabet so that pairs are close
    al = [0, 1, 2, 127, 128, 255, 256, 2**31, 2**32 - 1]
    small = [[]] + [[a] for a in (0, 1, 2)] + [[a, b] for a in (1, 2) for b in (0, 1, 39)] + [[1, 3, *t] for k in (1, 2) for t in itertools.product(al, repeat=k) if k == 1 or THOROUGH or r.random() < .3]
    pairs = list(itertools.product(small, small))
    if not THOROUGH: pairs = r.sample(pairs, min(1500, len(pairs)))
    for _ in range(400):
        a = g.ids(); b = list(a)
        k = r.randrange(5)
        if k == 0: b = b[:r.randrange(len(b) + 1)]
        elif k == 1: b += [r.choice(al)]
        elif k == 2 and len(b) > 2: i = r.randrange(2, len(b)); b[i] = max(0, b[i] + r.choice((-1, 1)))
        elif k == 3: b = g.ids()
        if all(x < 2**32 for x in b): pairs.append((a, b))
    for a, b in pairs:
        x, y = OID(*a), OID(*b)
        evs.append(dict(op="pair", a=M(a), b=M(b), lt=x < y, eq=x == y, starts=x.startswith(y), hash=hash(x) == hash(y)))
        if (x > y) != (y < x): out.violation("C04.order", f"{x} > {y} disagrees with {y} < {x}", dict(a=a, b=b))
    for a, b in r.sample(pairs, 500):
        b = [v for v in b]
        attempt(dict(op="ext", a=M(a), b=M(b), out=[], old=M(a)), lambda e: (lambda o: e.update(out=M(o.extend(*b)), old=M(o)))(OID(*a)))
    for a in (g.ids(100), g.ids(127), g.ids(128)):
        for k in (0, 1, 2, 27, 28, 29):
            b = [g.subid() for _ in range(k)]
            attempt(dict(op="ext", a=M(a), b=M(b), out=[], old=M(a)), lambda e: (lambda o: e.update(out=M(o.extend(*b)), old=M(o)))(OID(*a)))
    for a in ([], [1], [1, 3], [1, 3, 6, 7, 300], g.ids(9)):
        o = OID(*a)
        attempt(dict(op="iter", a=M(a), out=[], len=0), lambda e: e.update(out=M(list(o)), len=len(o)))
        for i in range(-len(a) - 2, len(a) + 2):
            attempt(dict(op="get", a=M(a), i=i, out=[]), lambda e: e.update(out=mag(o[i])))
            for j in [None, *range(-len(a) - 1, len(a) + 2, 2)]:
                for lo, hi in ((i, j), (None, i), (j, i)):
                    attempt(dict(op="slc", a=M(a), lo=[] if lo is None else [lo], hi=[] if hi is None else [hi], out=[]), lambda e: e.update(out=M(o[lo:hi])))
    # indices
    TYPES = ["Integer32", "Unsigned32", "Gauge32", "Counter32", "TimeTicks", "Counter64", "OctetString", "IpAddress", "Opaque", "OID", "Null"]
    def idxval(t):
        if t == "Integer32": return dict(t=t, **num(r.choice((0, 1, 127, 255, 256, 2**31 - 1, r.randrange(2**31)))))
        if t in INTS: return dict(t=t, **num(r.choice((0, 1, 255, 256, 2**31, 2**32 - 1, r.randrange(2**32)))))
        if t == "OID": return dict(t=t, ids=M(r.choice(([], [1], g.ids(2), g.ids(3), g.ids(6)))))
        if t in ("OctetString", "Opaque"): return dict(t=t, d=r.choice(([], [0], [255], g.blob(), g.blob())))
        return g.prim(t)
    combos = [[t] for t in TYPES] + [[a, b] for a in TYPES for b in TYPES] + [[r.choice(TYPES) for _ in range(3)] for _ in range(60)] + [[]]
    roundtrips = []
    for ts in combos:
        for implied in (False, True):
            for _ in range(6 if THOROUGH else 2):
                pre = g.ids(r.choice((2, 3, 8)))
                vs = [idxval(t) for t in ts]
                e = dict(op="with", a=M(pre), vs=vs, implied=implied, out=[], back=[], derr="")
                def go(e):
                    o = OID(*pre).withIndex(*map(L.build, vs), implied=implied)
                    e["out"] = M(o)
                    roundtrips.append((list(o), pre, ts, implied))
                    try:
                        back = o.decodeIndex(OID(*pre), *[L.c[t] for t in ts], implied=implied)
                        e["back"] = [L.view(x) for x in back]
                        for x, t in zip(e["back"], ts): x["t"] = t if TAGS[x["t"]] == TAGS[t] else x["t"]
                        if len(ts) == 1 and OID(*pre) and not (OID(*o).getIndex(OID(*pre), L.c[ts[0]], implied=implied) == back[0]):
                            e["derr"] = "getIndex"
                    except Exception as x: e["derr"] = name(x)
                attempt(e, go)
    for n in (120, 125, 126, 127, 128, 129, 200):       # index that does not fit
        for t in ("OctetString", "OID"):
            v = dict(t=t, d=[1] * n) if t != "OID" else dict(t=t, ids=M([1, 3] + [1] * (min(n, 128) - 2)))
            e = dict(op="with", a=M([1, 3, 6]), vs=[v], implied=False, out=[], back=[], derr="")
            def go(e):
                o = OID(1, 3, 6).withIndex(L.build(v)); e["out"] = M(o)
                e["back"] = [L.view(x) for x in o.decodeIndex(OID(1, 3, 6), L.c[t])]
            attempt(e, go)
    def didx(ids, pre, ts, implied):
        if len(ids) > 128 or any(not 0 <= x < 2**32 for x in ids): return
        try: o = OID(*ids); p = OID(*pre)
        except ValueError: return
        def go(e):
            back = o.decodeIndex(p, *[L.c[t] for t in ts], implied=implied)
            e["back"] = [L.view(x) for x in back]
            for x, t in zip(e["back"], ts): x["t"] = t if TAGS[x["t"]] == TAGS[t] else x["t"]
        attempt(dict(op="didx", a=M(ids), b=M(pre), ts=ts, implied=implied, back=[]), go)
    # exhaustive short tails over a boundary alphabet
    for ts in ([["Integer32"], ["OctetString"], ["OID"], ["IpAddress"], ["Counter64"], ["Null"], ["Integer32", "OctetString"], ["OctetString", "OID"], ["OID", "OID"], ["Opaque", "IpAddress"], []]):
        for k in range(0, 4):
            for t in itertools.product((0, 1, 2, 3, 255, 256, 2**31), repeat=k):
                if k < 3 or THOROUGH or r.random() < .25:
                    didx([1, 3, 6] + list(t), [1, 3, 6], ts, r.random() < .4)
    # mutated round trips
    for ids, pre, ts, implied in roundtrips:
        for _ in range(3 if THOROUGH else 2):
            x = list(ids)
            k = r.randrange(7)
            if k == 0: x = x[:r.randrange(len(pre), len(x) + 1)]
            elif k == 1: x.append(r.choice((0, 1, 256)))
            elif k == 2 and len(x) > len(pre): x[r.randrange(len(pre), len(x))] = r.choice((0, 1, 2, 5, 255, 256, 300, 2**31 - 1, 2**31, 2**32 - 1))
            elif k == 3 and len(x) > len(pre): i = r.randrange(len(pre), len(x)); x[i] = max(0, x[i] + r.choice((-1, 1)))
            elif k == 4: pre = pre[:-1] + [pre[-1] ^ 1]
            elif k == 5: ts = r.choice(combos)
            elif k == 6: x = x[:r.randrange(0, len(pre) + 1)]
            didx(x, pre, ts, r.choice((implied, not implied)))
    decide(out, evs, "one evaluation = one OID operation on real objects, decided by TLC from the sub-identifier sequences")
    out.assumptions = ["Hash agreement is checked for equal OIDs only."]
    return out

# ------------------------------------------------------------------ C26
def tweak(g, v):
    """The same value with one leaf changed (or one binding added, removed or swapped): still buildable, with another content or class."""
    import copy
    r = g.r
    w = copy.deepcopy(v)
    if v["t"] == "SNMPv3Message" and r.random() < .5: return dict(w, c=[w["c"][0], w["c"][1], g.O(w["c"][2]["d"] + [7]), w["c"][3]])
    spots = []
    def walk(x, up, i):
        if x["t"] == "VarBindList":
            spots.append(("list", x, up, i))
        if "c" in x:
            for j, y in enumerate(x["c"]): walk(y, x, j)
        elif not (up is not None and up["t"] == "SNMPv3Message" and i == 0): spots.append(("leaf", x, up, i))     # (the version is no part of it)
    walk(w, None, 0)
    how, x, up, i = r.choice(spots)
    if how == "list":
        k = r.randrange(3)
        if k == 0 or not x["c"]: x["c"].insert(r.randrange(len(x["c"]) + 1), g.varbind())
        elif k == 1: x["c"].pop(r.randrange(len(x["c"])))
        else: r.shuffle(x["c"])
        return w
    t = x["t"]
    if up is None or up["t"] == "VarBind" and i == 1 and r.random() < .5:
        y = g.prim(r.choice(PRIMS))
        if t in INTS and r.random() < .5: y = dict(x, t=r.choice([n for n in ("Counter32", "Gauge32", "TimeTicks", "Counter64") if n != t]))
        if t in INTS and y["t"] != t and y["t"] in INTS and not RANGE[y["t"]][0] <= unnum(y) <= RANGE[y["t"]][1]: y = g.prim("Null")
        if t in ("OctetString", "Opaque") and r.random() < .5: y = dict(x, t={"OctetString": "Opaque", "Opaque": "OctetString"}[t])
        if t in NULLS: y = dict(t=r.choice(NULLS))
        if up is None: return y
        up["c"][i] = y
    elif t in INTS:
        lo, hi = RANGE[t]
        n = unnum(x)
        x.update(num(r.choice([m for m in (n + 1, n - 1, n ^ 128, n ^ 256, 0) if lo <= m <= hi] or [n])))
    elif t == "MessageFlags": x["d"] = [r.choice([f for f in (0, 1, 3, 4, 5, 7) if f & 2 == x["d"][0] & 2])]
    elif t == "IpAddress": x["d"][r.randrange(4)] ^= 1
    elif "d" in x: x["d"] = x["d"] + [r.randrange(256)] if not x["d"] or r.random() < .4 else x["d"][:-1] if r.random() < .5 else x["d"][:-1] + [x["d"][-1] ^ 1]
    elif t == "OID":
        ids = [unmag(m) for m in x["ids"]]
        if len(ids) > 2: ids[-1] = ids[-1] ^ 1
        else: ids.append(r.randrange(300))
        x["ids"] = [mag(m) for m in ids]
    return w

def retype(g, v):
    """The same parts under another class."""
    r = g.r
    if v["t"] in PDUS: return dict(v, t=r.choice([t for t in PDUS if t != v["t"]]))
    if v["t"] in ("Message", "MessageV1"): return dict(t="Message", c=v["c"][:2] + [retype(g, v["c"][2])])
    return None

def c26():
    out = Outcome("C26", "model_checking")
    L, g, evs = Lib(), Gen(SEED), []
    r = g.r
    import snmp.smi, snmp.pdu, snmp.message, snmp.message.v3, snmp.security.usm.parameters, snmp.security.models
    import snmp.security.levels, snmp.message.version, snmp.utils
    ns = {}
    for m in (snmp.smi, snmp.pdu, snmp.message, snmp.message.v3, snmp.message.version, snmp.security.usm.parameters, snmp.security.levels, snmp.security.models, snmp.utils):
        ns.update(vars(m))
    ns["NULL"] = L.c["Null"]
    def built(v, decoded):
        """The value built from its parts, or decoded from its encoding."""
        try:
            o = L.build(v)
            if decoded:
                err, d, _ = L.decode(v["t"], o.encode(), False)
                if not err: return d
            return o
        except Exception: return None
    def cmp(a, b):
        x, y = built(a, r.random() < .5), built(b, r.random() < .5)
        if x is None or y is None: return
        e = dict(op="cmp", a=a, b=b, err="", out=False, rev=False, ne=False)
        try: e["out"], e["rev"], e["ne"] = (x == y) is True, (y == x) is True, (x != y) is True
        except Exception as z: e["err"] = type(z).__name__
        evs.append(e)
    def rep(v):
        dec = r.random() < .5
        x = built(v, dec)
        if x is None: return
        e = dict(op="rep", v=v, w=dict(t="Null"), err="", eq=False, serr="", text=[])
        try:
            y = eval(repr(x), dict(ns))
            e["eq"] = (y == x) is True
            e["w"] = L.view(y)
        except Exception as z: e["err"] = type(z).__name__
        try:
            s = str(x)
            if len(s) < 900: e["text"] = [ord(ch) for ch in s]
        except Exception as z: e["serr"] = type(z).__name__
        evs.append(e)
    def seq(v):
        x = built(v, r.random() < .5)
        if x is None: return
        e = dict(op="seq", v=v, err="", items=[], len=-1, bool=False, at=[], slices=[])
        try:
            e["items"], e["len"] = [L.view(y) for y in x], len(x)
            if v["t"] == "VarBind":
                name, value = x
                if not (name == x.name and value == x.value): e["err"] = "unpacking"
            else:
                e["bool"] = bool(x)
                n = len(v["c"])
                for i in range(-n - 2, n + 2):
                    try: e["at"].append(dict(i=i, err="", x=L.view(x[i])))
                    except IndexError: e["at"].append(dict(i=i, err="IndexError", x=dict(t="Null")))
                for _ in range(3):
                    lo, hi = ([] if r.random() < .3 else [r.randint(-n - 1, n + 1)] for _ in range(2))
                    e["slices"].append(dict(lo=lo, hi=hi, out=[L.view(y) for y in x[slice(lo[0] if lo else None, hi[0] if hi else None)]]))
        except Exception as z: e["err"] = type(z).__name__
        evs.append(e)
    reps = 300 if THOROUGH else 60
    for ty in STRUCTS + list(dict.fromkeys(INTS + PRIMS)):
        for i in range(reps):
            v = g.any(ty, big=i % 10 == 9)
            cmp(v, v)
            for _ in range(3 if ty in STRUCTS else 1): cmp(v, tweak(g, v))
            cmp(v, g.any(r.choice(STRUCTS + PRIMS)))
            w = retype(g, v)
            if w is not None: cmp(v, w)
            rep(v)
            if ty in ("VarBind", "VarBindList"): seq(v)
    for n in range(0, 8): seq(g.vbl(n))
    # the same parts in sequences of different classes
    b = g.varbind()
    for a in (b, dict(t="VarBindList", c=[b]), dict(t="VarBindList", c=[]), dict(t="VarBindList", c=[b, b])):
        for c in (b, dict(t="VarBindList", c=[b]), dict(t="VarBindList", c=[]), dict(t="VarBindList", c=[b, b])): cmp(a, c)
    for st in range(19):
        for x in range(2): rep(dict(t="ResponsePDU", c=[g.I(1), g.I(st), g.I(x), g.vbl(2)]))
    return decide(out, evs, "one evaluation = two values compared both ways, one value rebuilt from its representation and printed, or one list of bindings "
                            "indexed, sliced and iterated; every verdict follows from Ber.tla and Codec.tla",
                  lambda e: e["op"] != "cmp" or repr(e["a"]) != repr(e["b"]))
