"""An SNMP engine written from the RFCs, independent of the code under test: parses and builds datagrams, knows USM."""
import hashlib, hmac as _hmac
from Crypto.Cipher import AES, DES

# ------------------------------------------------------------------ BER
class Bad(Exception): pass
def tlv(b, i, end):
    if i + 2 > end: raise Bad()
    tag = b[i]; l = b[i + 1]; j = i + 2
    if l >= 128:
        k = l - 128
        if k == 0 or j + k > end: raise Bad()
        l = int.from_bytes(b[j:j + k], "big"); j += k
    if j + l > end: raise Bad()
    return tag, j, j + l
def seq(b, i, end):
    out = []
    while i < end:
        t, s, e = tlv(b, i, end)
        out.append((t, s, e)); i = e
    return out
def want(x, tag):
    if x[0] != tag: raise Bad()
    return x
def geti(b, x, tag=2):
    want(x, tag)
    if x[2] == x[1]: raise Bad()
    return int.from_bytes(b[x[1]:x[2]], "big", signed=True)
def geto(b, x):
    want(x, 4); return bytes(b[x[1]:x[2]])
def elen(n):
    if n < 128: return bytes([n])
    h = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return bytes([128 + len(h)]) + h
def T(tag, body): return bytes([tag]) + elen(len(body)) + body
def eint(n, tag=2):
    k = 1
    while not -(1 << (8 * k - 1)) <= n < (1 << (8 * k - 1)): k += 1
    return T(tag, n.to_bytes(k, "big", signed=True))
def eoct(s): return T(4, bytes(s))
def esub(n):
    out = [n & 127]; n >>= 7
    while n: out.insert(0, 128 | n & 127); n >>= 7
    return bytes(out)
def eoid(ids): return T(6, bytes([40 * ids[0] + ids[1]]) + b"".join(map(esub, ids[2:])))
def doid(b):
    if not b or b[-1] & 128: raise Bad()
    ids = [min(b[0] // 40, 2), b[0] - 40 * min(b[0] // 40, 2)]; n = 0
    for x in b[1:]:
        n = n << 7 | x & 127
        if not x & 128: ids.append(n); n = 0
    return tuple(ids)
NULL = b"\x05\x00"
def evbl(vbs): return T(48, b"".join(T(48, eoid(o) + v) for o, v in vbs))
PDU = dict(get=0xa0, next=0xa1, response=0xa2, set=0xa3, bulk=0xa5, inform=0xa6, trap=0xa7, report=0xa8)
PDUNAME = {v: k for k, v in PDU.items()}
def epdu(kind, rid, a, b, vbs): return T(PDU[kind] if isinstance(kind, str) else kind, eint(rid) + eint(a) + eint(b) + evbl(vbs))
def dpdu(b, x):
    if x[0] not in PDUNAME: raise Bad()
    f = seq(b, x[1], x[2])
    if len(f) != 4: raise Bad()
    want(f[3], 48)
    vbs = []
    for v in seq(b, f[3][1], f[3][2]):
        want(v, 48)
        p = seq(b, v[1], v[2])
        if len(p) != 2: raise Bad()
        want(p[0], 6)
        vbs.append((doid(b[p[0][1]:p[0][2]]), raw(b, p[1])))
    return dict(kind=PDUNAME[x[0]], rid=geti(b, f[0]), a=geti(b, f[1]), b=geti(b, f[2]), vbs=vbs)
def raw(b, x): return T(x[0], bytes(b[x[1]:x[2]]))

def community_msg(ver, comm, pdu): return T(48, eint(ver) + eoct(comm) + pdu)
def parse(b, usm=None):
    """-> dict of facts; raises Bad"""
    b = bytes(b)
    t, s, e = tlv(b, 0, len(b))
    if t != 48 or e != len(b): raise Bad()
    f = seq(b, s, e)
    if not f: raise Bad()
    ver = geti(b, f[0])
    if ver in (0, 1):
        if len(f) != 3: raise Bad()
        return dict(ver=ver, comm=geto(b, f[1]), pdu=dpdu(b, f[2]))
    if ver != 3 or len(f) != 4: raise Bad()
    want(f[1], 48)
    h = seq(b, f[1][1], f[1][2])
    if len(h) != 4: raise Bad()
    sp = want(f[2], 4)
    q, qs, qe = tlv(b, sp[1], sp[2])
    if q != 48 or qe != sp[2]: raise Bad()
    u = seq(b, qs, qe)
    if len(u) != 6: raise Bad()
    fl = geto(b, h[2])
    if len(fl) < 1: raise Bad()
    d = dict(ver=3, msgid=geti(b, h[0]), max=geti(b, h[1]), flags=fl[0], model=geti(b, h[3]), engine=geto(b, u[0]), boots=geti(b, u[1]),
             time=geti(b, u[2]), user=geto(b, u[3]), mac=geto(b, u[4]), salt=geto(b, u[5]), macpos=u[4][1])
    d["auth"], d["priv"], d["reportable"] = bool(fl[0] & 1), bool(fl[0] & 2), bool(fl[0] & 4)
    d["genuine"] = False
    cred = usm.get(d["user"]) if usm else None
    if d["auth"] and cred and cred.auth:
        z = b[:d["macpos"]] + bytes(len(d["mac"])) + b[d["macpos"] + len(d["mac"]):]
        d["genuine"] = len(d["mac"]) == HASH[cred.auth][1] and mac(cred.auth, cred.akey(d["engine"]), z) == d["mac"]
    if d["priv"]:
        ct = d["ct"] = geto(b, f[3])
        if not (cred and cred.priv): d["scoped"] = None; return d
        try: pt = decrypt(cred.priv, cred.pkey(d["engine"]), d["boots"], d["time"], d["salt"], ct)
        except Exception: d["scoped"] = None; return d
        body, x = pt, None
        try: t, s, e = tlv(pt, 0, len(pt))
        except Bad: d["scoped"] = None; return d
        d["padding"] = pt[e:]
        if t != 48: d["scoped"] = None; return d
    else:
        want(f[3], 48)
        body, s, e = b, f[3][1], f[3][2]
    try:
        g = seq(body, s, e)
        if len(g) != 3: raise Bad()
        d["scoped"] = dict(ce=geto(body, g[0]), cn=geto(body, g[1]), pdu=dpdu(body, g[2]))
    except Bad:
        if not d["priv"]: raise
        d["scoped"] = None
    return d

# ------------------------------------------------------------------ USM
HASH = dict(md5=("md5", 12), sha1=("sha1", 12), sha224=("sha224", 16), sha256=("sha256", 24), sha384=("sha384", 32), sha512=("sha512", 48))
_keys = {}
def pass2key(a, secret):
    k = (a, bytes(secret))
    if k not in _keys:
        n = 1 << 20
        _keys[k] = hashlib.new(HASH[a][0], (bytes(secret) * (n // len(secret) + 1))[:n]).digest()
    return _keys[k]
def localize(a, key, engine): return hashlib.new(HASH[a][0], key + engine + key).digest()
def mac(a, key, msg): return _hmac.new(key, msg, HASH[a][0]).digest()[:HASH[a][1]]
def aes_iv(boots, time, salt): return (boots & 0xffffffff).to_bytes(4, "big") + (time & 0xffffffff).to_bytes(4, "big") + salt
def decrypt(p, key, boots, time, salt, ct):
    if len(salt) != 8: raise Bad()
    if p == "aes": return AES.new(key[:16], AES.MODE_CFB, iv=aes_iv(boots, time, salt), segment_size=128).decrypt(ct)
    if len(ct) % 8: raise Bad()
    return DES.new(key[:8], DES.MODE_CBC, iv=bytes(a ^ b for a, b in zip(salt, key[8:16]))).decrypt(ct)
def encrypt(p, key, boots, time, salt, pt):
    if p == "aes": return AES.new(key[:16], AES.MODE_CFB, iv=aes_iv(boots, time, salt), segment_size=128).encrypt(pt)
    pt = pt + bytes(-len(pt) % 8)
    return DES.new(key[:8], DES.MODE_CBC, iv=bytes(a ^ b for a, b in zip(salt, key[8:16]))).encrypt(pt)

class Cred:
    def __init__(self, auth=None, asec=None, priv=None, psec=None):
        self.auth, self.priv = auth, priv
        self.ak = pass2key(auth, asec) if auth else None
        self.pk = pass2key(auth, psec) if auth and priv else None
        self._c = {}
    def akey(self, e):
        if ("a", e) not in self._c: self._c["a", e] = localize(self.auth, self.ak, e)
        return self._c["a", e]
    def pkey(self, e):
        if ("p", e) not in self._c: self._c["p", e] = localize(self.auth, self.pk, e)
        return self._c["p", e]

_salt = [0]
def v3_msg(msgid, flags, engine, boots, time, user, scoped, cred=None, maxsize=65507, model=3, badmac=False, salt=None, raw_payload=None):
    """scoped = encoded ScopedPDU octets; flags bit0 auth, bit1 priv, bit2 reportable"""
    if flags & 2:
        if salt is None: _salt[0] += 1; salt = _salt[0].to_bytes(8, "big")
        payload = eoct(encrypt(cred.priv, cred.pkey(engine), boots, time, salt, scoped))
    else:
        salt = b"" if salt is None else salt
        payload = scoped
    if raw_payload is not None: payload = raw_payload
    n = HASH[cred.auth][1] if flags & 1 and cred and cred.auth else 0
    def build(m):
        p = T(48, eoct(engine) + eint(boots) + eint(time) + eoct(user) + eoct(m) + eoct(salt))
        return T(48, eint(3) + T(48, eint(msgid) + eint(maxsize) + eoct(bytes([flags])) + eint(model)) + eoct(p) + payload)
    if not n: return build(b"")
    z = build(bytes(n))
    m = mac(cred.auth, cred.akey(engine), z)
    if badmac: m = bytes([m[0] ^ 1]) + m[1:]
    return build(m)
def scoped(ce, cn, pdu): return T(48, eoct(ce) + eoct(cn) + pdu)
USMSTATS = (1, 3, 6, 1, 6, 3, 15, 1, 1)
COUNTER = dict(level=1, window=2, user=3, engine=4, digest=5, decrypt=6)
def report_oid(name): return USMSTATS + (COUNTER[name], 0) if name in COUNTER else name
def counter_value(n): return T(0x41, (n).to_bytes(max(1, (n.bit_length() + 8) // 8), "big"))
