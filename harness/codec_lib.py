"""Views of real objects (see spec/Ber.tla), builders from views, generators."""
import random

def mag(n):
    n = abs(n)
    return list(n.to_bytes((n.bit_length() + 7) // 8, "big"))
def num(n):
    return dict(neg=n < 0, mag=mag(n))
def unmag(m):
    return int.from_bytes(bytes(m), "big")
def unnum(v):
    n = unmag(v["mag"])
    return -n if v["neg"] else n

INTS = ["Integer32", "Counter32", "Gauge32", "TimeTicks", "Counter64", "Unsigned32", "Integer"]
OCTS = ["OctetString", "IpAddress", "Opaque"]
NULLS = ["Null", "NoSuchObject", "NoSuchInstance", "EndOfMibView"]
PDUS = ["GetRequestPDU", "GetNextRequestPDU", "ResponsePDU", "SetRequestPDU", "InformRequestPDU", "SNMPv2TrapPDU", "ReportPDU"]
V1PDUS = PDUS[:4]
VALUE_INTS = ["Integer32", "Counter32", "Gauge32", "TimeTicks", "Counter64"]
PRIMS = INTS[:5] + OCTS + NULLS + ["OID"]

class Lib:
    """Every class by view name, looked up in the code under test."""
    def __init__(self):
        import snmp.smi as smi, snmp.pdu as pdu, snmp.exception as exc
        import snmp.message as message, snmp.message.v3 as v3, snmp.security.usm.parameters as par
        import snmp.utils as utils
        from snmp.security.levels import SecurityLevel
        from snmp.security.models import SecurityModel
        self.subbytes = utils.subbytes
        self.c = {}
        for n in ("Integer", "Integer32", "Unsigned32", "Counter32", "Gauge32", "TimeTicks", "Counter64",
                  "OctetString", "IpAddress", "Opaque", "Null", "OID"):
            self.c[n] = getattr(smi, n)
        for n in ("NoSuchObject", "NoSuchInstance", "EndOfMibView", "VarBind", "VarBindList", "GetBulkRequestPDU", *PDUS):
            self.c[n] = getattr(pdu, n)
        self.c["Message"] = self.c["MessageV1"] = message.Message
        self.c["VersionOnlyMessage"] = message.VersionOnlyMessage
        for n in ("HeaderData", "MessageFlags", "ScopedPDU", "SNMPv3Message"):
            self.c[n] = getattr(v3, n)
        self.c["UsmSecurityParameters"] = par.UsmSecurityParameters
        self.names = {}
        for n in list(reversed(INTS)) + OCTS + NULLS + ["OID", "VarBind", "VarBindList", "GetBulkRequestPDU", *PDUS]:
            self.names[self.c[n]] = n
        self.names[self.c["Integer32"]] = "Integer32"
        self.ErrorStatus = pdu.ErrorStatus
        self.ProtocolVersion = message.ProtocolVersion
        self.SecurityLevel, self.SecurityModel = SecurityLevel, SecurityModel
        self.IncomingMessageError = exc.IncomingMessageError
        self.v1types = {self.c[n].TAG: self.c[n] for n in V1PDUS}
        self.alltypes = {self.c[n].TAG: self.c[n] for n in PDUS + ["GetBulkRequestPDU"]}

    def kwargs(self, ty):
        if ty == "MessageV1":
            return dict(types=self.v1types)
        if ty in ("Message", "ScopedPDU"):
            return dict(types=self.alltypes)
        return {}

    # ---- view -> object
    def build(self, v):
        t, c = v["t"], self.c.get(v["t"])
        if t in INTS:
            return c(unnum(v))
        if t == "IpAddress":
            return c(".".join(map(str, v["d"])))
        if t in OCTS:
            return c(bytes(v["d"]))
        if t in NULLS:
            return c()
        if t == "OID":
            return c(*map(unmag, v["ids"]))
        if t == "VarBind":
            return c(self.build(v["c"][0]), self.build(v["c"][1]))
        if t == "VarBindList":
            return c(*map(self.build, v["c"]))
        if t == "GetBulkRequestPDU":
            a, b, d = (unnum(x) for x in v["c"][:3])
            return c(requestID=a, nonRepeaters=b, maxRepetitions=d, variableBindings=self.build(v["c"][3]))
        if t in PDUS:
            a, b, d = (unnum(x) for x in v["c"][:3])
            return c(requestID=a, errorStatus=self.ErrorStatus(b), errorIndex=d, variableBindings=self.build(v["c"][3]))
        if t == "VersionOnlyMessage":
            return c(self.ProtocolVersion(unnum(v["c"][0])))
        if t in ("Message", "MessageV1"):
            return c(self.ProtocolVersion(unnum(v["c"][0])), bytes(v["c"][1]["d"]), self.build(v["c"][2]))
        if t == "MessageFlags":
            f = v["d"][0]
            return c(self.SecurityLevel(f & 1, f & 2), bool(f & 4))
        if t == "HeaderData":
            return c(unnum(v["c"][0]), unnum(v["c"][1]), self.build(v["c"][2]), self.SecurityModel(unnum(v["c"][3])))
        if t == "ScopedPDU":
            return c(self.build(v["c"][2]), bytes(v["c"][0]["d"]), bytes(v["c"][1]["d"]))
        if t == "SNMPv3Message":
            kw = dict(securityParameters=self.build(v["c"][2]))
            kw["scopedPDU" if v["c"][3]["t"] == "ScopedPDU" else "encryptedPDU"] = self.build(v["c"][3])
            return c(self.build(v["c"][1]), **kw)
        if t == "UsmSecurityParameters":
            x = v["c"]
            return c(bytes(x[0]["d"]), unnum(x[1]), unnum(x[2]), bytes(x[3]["d"]), bytes(x[4]["d"]), bytes(x[5]["d"]))
        raise KeyError(t)

    # ---- object -> view, from its public fields
    def view(self, o, ty=None):
        I = lambda n: dict(t="Integer32", **num(int(n)))
        O = lambda b: dict(t="OctetString", d=list(b))
        c = self.c
        if isinstance(o, c["MessageFlags"]):
            return dict(t="MessageFlags", d=[(1 if o.authFlag else 0) | (2 if o.privFlag else 0) | (4 if o.reportableFlag else 0)])
        if isinstance(o, c["HeaderData"]):
            return dict(t="HeaderData", c=[I(o.id), I(o.maxSize), self.view(o.flags), I(o.securityModel)])
        if isinstance(o, c["ScopedPDU"]):
            return dict(t="ScopedPDU", c=[O(o.contextEngineID), O(o.contextName), self.view(o.pdu)])
        if isinstance(o, c["SNMPv3Message"]):
            body = o.encryptedPDU if o.header.flags.privFlag else o.scopedPDU
            return dict(t="SNMPv3Message", c=[I(3), self.view(o.header), O(o.securityParameters.data), self.view(body)])
        if isinstance(o, c["UsmSecurityParameters"]):
            return dict(t="UsmSecurityParameters", c=[O(o.engineID), I(o.engineBoots), I(o.engineTime), O(o.userName), O(o.signature), O(o.salt)])
        if isinstance(o, c["VersionOnlyMessage"]):
            return dict(t="VersionOnlyMessage", c=[I(o.version)])
        if isinstance(o, c["Message"]):
            return dict(t="Message", c=[I(o.version), O(o.community), self.view(o.pdu)])
        t = self.names[type(o)]
        if t in INTS:
            return dict(t=t, **num(o.value))
        if t in OCTS:
            return dict(t=t, d=list(o.data))
        if t in NULLS:
            return dict(t=t)
        if t == "OID":
            return dict(t="OID", ids=[mag(x) for x in o])
        if t == "VarBind":
            return dict(t=t, c=[self.view(o.name), self.view(o.value)])
        if t == "VarBindList":
            return dict(t=t, c=[self.view(o[i]) for i in range(len(o))])
        if t == "GetBulkRequestPDU":
            return dict(t=t, c=[I(o.requestID), I(o.nonRepeaters), I(o.maxRepetitions), self.view(o.variableBindings)])
        return dict(t=t, c=[I(o.requestID), I(o.errorStatus), I(o.errorIndex), self.view(o.variableBindings)])

    def decode(self, ty, data, left):
        """-> (err, object, rest)"""
        try:
            r = self.c[ty].decode(data, leftovers=True, **self.kwargs(ty)) if left else self.c[ty].decode(data, **self.kwargs(ty))
        except self.IncomingMessageError:
            return "parse", None, []
        except Exception as e:
            return "OTHER:" + type(e).__name__, None, []
        if left:
            return "", r[0], list(r[1])
        return "", r, []

# ---------------------------------------------------------------- generators of views
EDGE_BITS = [0, 1, 6, 7, 8, 9, 14, 15, 16, 17, 21, 23, 24, 28, 31, 32]
def edge_ints(lo, hi):
    s = set()
    for b in list(range(0, 65)):
        for d in (-2, -1, 0, 1, 2):
            for sg in (1, -1):
                n = sg * (1 << b) + d
                if lo <= n <= hi:
                    s.add(n)
    s |= {0, lo, hi, lo + 1, hi - 1}
    return sorted(s)
RANGE = {"Integer": (-2**31, 2**31 - 1), "Integer32": (-2**31, 2**31 - 1), "Counter32": (0, 2**32 - 1),
         "Gauge32": (0, 2**32 - 1), "Unsigned32": (0, 2**32 - 1), "TimeTicks": (0, 2**32 - 1), "Counter64": (0, 2**64 - 1)}

class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
    def int_in(self, t, small=False):
        lo, hi = RANGE[t]
        r = self.r
        k = r.randrange(4)
        if k == 0: n = r.choice(edge_ints(lo, hi))
        elif k == 1: n = r.randrange(-300, 300)
        elif k == 2: n = r.randrange(lo, hi + 1)
        else: n = r.choice((1, -1)) * (1 << r.randrange(64)) + r.randrange(-3, 4)
        return min(max(n, lo), hi)
    def I(self, n): return dict(t="Integer32", **num(n))
    def O(self, b): return dict(t="OctetString", d=list(b))
    def blob(self, big=False):
        r = self.r
        n = r.choice((0, 1, 2, 3, 5, 8, 12, 20)) if not big else r.choice((100, 120, 126, 127, 128, 129, 200, 250, 255, 256, 260))
        return [r.randrange(256) for _ in range(n)]
    def subid(self):
        r = self.r
        k = r.randrange(4)
        if k == 0: return r.randrange(130)
        if k == 1: return max(0, min(2**32 - 1, (1 << r.choice((7, 14, 21, 28, 31, 32))) + r.randrange(-2, 3)))
        if k == 2: return r.randrange(2**32)
        return r.randrange(2 ** r.randrange(1, 33))
    def ids(self, n=None, mn=2):
        r = self.r
        if n is None: n = r.choice((2, 3, 4, 6, 9, 14))
        n = max(n, mn)
        l = [r.randrange(3), r.randrange(40)][:n] + [self.subid() for _ in range(n - 2)]
        return l
    def oid(self, n=None):
        return dict(t="OID", ids=[mag(x) for x in self.ids(n)])
    def prim(self, t=None, big=False):
        r = self.r
        t = t or r.choice(PRIMS)
        if t in INTS: return dict(t=t, **num(self.int_in(t)))
        if t == "IpAddress": return dict(t=t, d=[r.choice((0, 1, 127, 128, 255, r.randrange(256))) for _ in range(4)])
        if t in OCTS: return dict(t=t, d=self.blob(big))
        if t in NULLS: return dict(t=t)
        return self.oid()
    def varbind(self, big=False):
        return dict(t="VarBind", c=[self.oid(), self.prim(big=big)])
    def vbl(self, n=None, big=False):
        if n is None: n = self.r.choice((0, 1, 1, 2, 3, 5))
        return dict(t="VarBindList", c=[self.varbind(big and i == 0) for i in range(n)])
    def pdu(self, t=None, big=False):
        r = self.r
        t = t or r.choice(PDUS + ["GetBulkRequestPDU"])
        l = self.vbl(big=big)
        rid = self.int_in("Integer32")
        if t == "GetBulkRequestPDU":
            a, b = abs(self.int_in("Integer32")), r.choice((0, 1, 10, 2**31 - 1, 127, 128))
            a = min(a, 2**31 - 1)
        else:
            a = r.choice((0, 0, r.randrange(19), 18))
            b = r.randrange(len(l["c"]) + 1) if a else 0
        return dict(t=t, c=[self.I(rid), self.I(a), self.I(b), l])
    def flags(self):
        return dict(t="MessageFlags", d=[self.r.choice((0, 1, 3, 4, 5, 7))])
    def header(self, f=None):
        r = self.r
        return dict(t="HeaderData", c=[self.I(r.choice((0, 1, 2**31 - 1, r.randrange(2**31)))),
                                       self.I(r.choice((484, 485, 2048, 65507, 2**31 - 1))), f or self.flags(), self.I(3)])
    def scoped(self, big=False):
        return dict(t="ScopedPDU", c=[self.O(self.blob()), self.O(self.blob()), self.pdu(big=big)])
    def usm(self):
        r = self.r
        n = lambda: self.I(r.choice((0, 1, 127, 128, 2**31 - 1, r.randrange(2**31))))
        return dict(t="UsmSecurityParameters", c=[self.O(self.blob()), n(), n(), self.O(self.blob()),
                                                  self.O([r.randrange(256) for _ in range(r.choice((0, 12, 16, 24, 48)))]),
                                                  self.O([r.randrange(256) for _ in range(r.choice((0, 8)))])])
    def v3(self, big=False):
        f = self.flags()
        body = self.O(self.blob(big)) if f["d"][0] & 2 else self.scoped(big)
        return dict(t="SNMPv3Message", c=[self.I(3), self.header(f), self.O(self.blob()), body])
    def message(self, v1=False, big=False):
        p = self.pdu(self.r.choice(V1PDUS) if v1 else None, big=big)
        return dict(t="Message", c=[self.I(self.r.randrange(2)), self.O(self.blob()), p])
    def any(self, ty, big=False):
        if ty in PRIMS + INTS: return self.prim(ty, big)
        if ty == "VarBind": return self.varbind(big)
        if ty == "VarBindList": return self.vbl(big=big)
        if ty in PDUS or ty == "GetBulkRequestPDU": return self.pdu(ty, big)
        if ty == "Message": return self.message(big=big)
        if ty == "MessageV1": return self.message(True, big=big)
        if ty == "VersionOnlyMessage": return dict(t=ty, c=[self.I(self.r.choice((0, 1, 3)))])
        if ty == "HeaderData": return self.header()
        if ty == "MessageFlags": return self.flags()
        if ty == "ScopedPDU": return self.scoped(big)
        if ty == "SNMPv3Message": return self.v3(big)
        if ty == "UsmSecurityParameters": return self.usm()
        raise KeyError(ty)

STRUCTS = ["VarBind", "VarBindList", "GetBulkRequestPDU", *PDUS, "Message", "MessageV1", "VersionOnlyMessage",
           "HeaderData", "MessageFlags", "ScopedPDU", "SNMPv3Message", "UsmSecurityParameters"]
ALLTYPES = list(dict.fromkeys(INTS + OCTS + NULLS + ["OID"] + STRUCTS))

# ---------------------------------------------------------------- an independent encoder (for making inputs only)
TAGS = dict(Integer=2, Integer32=2, OctetString=4, Null=5, OID=6, IpAddress=64, Counter32=65, Unsigned32=66, Gauge32=66,
            TimeTicks=67, Opaque=68, Counter64=70, NoSuchObject=128, NoSuchInstance=129, EndOfMibView=130, VarBind=48,
            VarBindList=48, GetRequestPDU=160, GetNextRequestPDU=161, ResponsePDU=162, SetRequestPDU=163,
            GetBulkRequestPDU=165, InformRequestPDU=166, SNMPv2TrapPDU=167, ReportPDU=168, Message=48, MessageV1=48,
            VersionOnlyMessage=48, HeaderData=48, MessageFlags=4, ScopedPDU=48, SNMPv3Message=48, UsmSecurityParameters=48)
def enc_len(n):
    if n < 128: return bytes([n])
    b = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return bytes([128 + len(b)]) + b
def enc_int(n):
    k = 1
    while not -(1 << (8 * k - 1)) <= n < (1 << (8 * k - 1)): k += 1
    return n.to_bytes(k, "big", signed=True)
def enc_sub(n):
    out = [n & 127]; n >>= 7
    while n: out.insert(0, 128 | (n & 127)); n >>= 7
    return bytes(out)
def enc(v):
    t = v["t"]
    if t in INTS: b = enc_int(unnum(v))
    elif "d" in v: b = bytes(v["d"])
    elif t in NULLS: b = b""
    elif t == "OID":
        i = [unmag(x) for x in v["ids"]]
        b = bytes([40 * i[0] + i[1]]) + b"".join(map(enc_sub, i[2:]))
    else: b = b"".join(map(enc, v["c"]))
    return bytes([TAGS[t]]) + enc_len(len(b)) + b
def parts(bs):
    """Positions (tag, length start, body start, end) of every nested TLV of well-formed octets."""
    out = []
    def walk(i, end):
        while i < end:
            j = i + 1
            l = bs[j]; j += 1
            if l >= 128:
                k = l - 128; l = int.from_bytes(bs[j:j + k], "big"); j += k
            out.append((i, i + 1, j, j + l))
            if bs[i] & 32: walk(j, j + l)
            i = j + l
    walk(0, len(bs))
    return out
