-------------------------------- MODULE Codec --------------------------------
(* Contract of encoding, decoding, construction, comparison and OID algebra.  *)
(* Every event is one call to the real code with its arguments and result;     *)
(* the verdict follows from Ber.tla alone, so there is no state.               *)
EXTENDS Ber, TLC

Clause(b, name) == IF b THEN {} ELSE {name}
InitSt(t) == 0
Step(st, e) == st

Num(x) == [neg |-> x.neg, mag |-> x.mag]
NumEq(a, b) == a.mag = b.mag /\ (a.mag = <<>> \/ a.neg = b.neg)
NumLess(a, b) == IF a.neg # b.neg THEN a.neg ELSE IF a.neg THEN Less(b.mag, a.mag) ELSE Less(a.mag, b.mag)

----------------------------------------------------------------------------
\* C01: e.v is what was built, e.out its encoding, e.back what was decoded from e.out \o e.tail
EncClauses(e) ==
    LET x == Enc(e.v)
        ty == IF e.ty = "MessageV1" THEN "MessageV1" ELSE e.v.t IN
       Clause(e.err = "" /\ e.out = x, "C01.encoding")
    \cup (IF e.err # "" THEN {} ELSE
       Clause(\A i \in 1..Len(e.back) : e.back[i].err = "", "C01.decode-own-encoding")
    \cup Clause(\A i \in 1..Len(e.back) : e.back[i].err = "" => Enc(e.back[i].v) = x, "C01.decoded-fields")
    \cup Clause(\A i \in 1..Len(e.back) : e.back[i].err = "" => e.back[i].eq, "C01.decoded-equal")
    \cup Clause(\A i \in 1..Len(e.back) : e.back[i].err = "" => e.back[i].rest = e.back[i].tail, "C01.leftovers"))
    \cup Clause(Canon(ty, x \o <<5, 0>>, TRUE) = [k |-> "ok", v |-> x, rest |-> <<5, 0>>], "SPEC.canon")

\* C02
DecClauses(e) ==
    LET c == Canon(e.ty, e.bs, e.left)
        ok == e.err = ""
        rej == e.err = "parse" IN
       Clause(ok \/ rej, "C02.unexpected-exception")
    \cup Clause(c.k = "ok" => ~rej, "C02.refused-valid")
    \cup Clause(c.k = "rej" => ~ok, "C02.accepted-invalid")
    \cup Clause(c.k = "ok" /\ ok => Enc(e.v) = c.v, "C02.wrong-value")
    \cup Clause(c.k = "ok" /\ ok => e.rest = c.rest, "C02.wrong-leftovers")

\* bare TLVs with arbitrary tags: class, constructed bit and number (a magnitude) of any size
TagOctets(cls, con, n) ==
    LET first == 64 * cls + (IF con THEN 32 ELSE 0) IN
    IF Len(n) <= 1 /\ SmallVal(n) < 31 THEN <<first + SmallVal(n)>> ELSE <<first + 31>> \o EncSubId(n)
Split(bs) ==            \* [k, cls, con, num, rest] of the tag at the front
    LET bad == [k |-> "rej", cls |-> 0, con |-> FALSE, num |-> <<>>, rest |-> <<>>] IN
    IF bs = <<>> THEN bad
    ELSE LET cls == bs[1] \div 64
             con == (bs[1] \div 32) % 2 = 1 IN
         IF bs[1] % 32 # 31
         THEN [k |-> "ok", cls |-> cls, con |-> con, num |-> MagOfSmall(bs[1] % 32), rest |-> Tail(bs)]
         ELSE LET ends == {i \in 2..Len(bs) : bs[i] < 128} IN
              IF ends = {} THEN bad
              ELSE LET z == CHOOSE i \in ends : \A j \in ends : i <= j
                       num == FromBase128([i \in 1..(z - 1) |-> bs[i + 1] % 128])
                   IN [k |-> IF bs[2] = 128 \/ (Len(num) <= 1 /\ SmallVal(num) < 31) THEN "any" ELSE "ok",
                       cls |-> cls, con |-> con, num |-> num, rest |-> SubSeq(bs, z + 1, Len(bs))]
TlvClauses(e) ==        \* built from its parts; back: decoded in several forms
    LET x == TagOctets(e.cls, e.con, e.num) \o EncLen(Len(e.body)) \o e.body IN
       Clause(e.err = "" /\ e.out = x, "C01.tlv-encoding")
    \cup Clause(e.err # "" \/ \A i \in 1..Len(e.back) : LET b == e.back[i] IN
              b.err = "" /\ b.cls = e.cls /\ b.con = e.con /\ b.num = e.num /\ b.body = e.body /\ b.rest = b.tail, "C01.tlv-roundtrip")
RtlvClauses(e) ==       \* arbitrary octets; e.left: leftovers allowed; e.exp: <<>> or an expected tag
    LET t == Split(e.bs)
        r == IF t.k = "rej" THEN ReadRej ELSE ReadBody(0, t.rest)
        wrong == e.exp # <<>> /\ t.k # "rej" /\ e.exp[1] # [cls |-> t.cls, con |-> t.con, num |-> t.num]
        rej == t.k = "rej" \/ r.k = "rej" \/ wrong \/ (~e.left /\ r.k = "ok" /\ r.rest # <<>>)
        ok == ~rej /\ t.k = "ok" /\ r.k = "ok" IN
       Clause(e.err \in {"", "parse"}, "C02.unexpected-exception")
    \cup Clause(ok => e.err # "parse", "C02.refused-valid")
    \cup Clause(rej => e.err # "", "C02.accepted-invalid")
    \cup Clause(ok /\ e.err = "" => e.cls = t.cls /\ e.con = t.con /\ e.num = t.num /\ e.body = r.body, "C02.wrong-value")
    \cup Clause(ok /\ e.err = "" /\ e.left => e.rest = r.rest, "C02.wrong-leftovers")

----------------------------------------------------------------------------
\* C03: construction
IsDigit(ch) == ch >= 48 /\ ch <= 57
HexOrDot(ch) == IsDigit(ch) \/ ch \in {46, 120, 88} \/ ch \in 65..70 \/ ch \in 97..102
RECURSIVE SplitDot(_, _)
SplitDot(s, cur) == IF s = <<>> THEN <<cur>>
                    ELSE IF Head(s) = 46 THEN <<cur>> \o SplitDot(Tail(s), <<>>)
                    ELSE SplitDot(Tail(s), Append(cur, Head(s)))
RECURSIVE DecVal(_)
DecVal(s) == IF s = <<>> THEN 0 ELSE DecVal(SubSeq(s, 1, Len(s) - 1)) * 10 + s[Len(s)] - 48
Plain(p) == Len(p) \in 1..3 /\ (\A i \in 1..Len(p) : IsDigit(p[i])) /\ (Len(p) > 1 => p[1] # 48)
Quad(s) == LET p == SplitDot(s, <<>>) IN Len(p) = 4 /\ \A i \in 1..4 : Plain(p[i]) /\ DecVal(p[i]) <= 255
QuadOctets(s) == LET p == SplitDot(s, <<>>) IN [i \in 1..4 |-> DecVal(p[i])]
NotAnAddress(s) == \/ s = <<>>
                   \/ \E i \in 1..Len(s) : s[i] > 32 /\ ~HexOrDot(s[i]) /\ \A j \in 1..i : s[j] > 32
                   \/ LET p == SplitDot(s, <<>>) IN
                      \/ (Len(p) > 4 /\ \A i \in 1..Len(s) : s[i] > 32)
                      \/ (Len(p) = 4 /\ (\A i \in 1..4 : Plain(p[i])) /\ \E i \in 1..4 : DecVal(p[i]) > 255)

ConClauses(e) ==
    LET must == CASE e.kind = "int" -> InRange(e.ty, e.arg.neg /\ e.arg.mag # <<>>, e.arg.mag)
                  [] e.kind = "oct" -> e.len <= MaxOctets
                  [] e.kind = "oid" -> OidInRange([i \in 1..Len(e.arg) |-> e.arg[i].mag])
                                        /\ \A i \in 1..Len(e.arg) : ~e.arg[i].neg \/ e.arg[i].mag = <<>>
                  [] e.kind = "ip" -> Quad(e.arg)
        free == e.kind = "ip" /\ ~Quad(e.arg) /\ ~NotAnAddress(e.arg) IN
       Clause(e.err \in {"", "ValueError"}, "C03.unexpected-exception")
    \cup Clause(free \/ (must => e.err # "ValueError"), "C03.refused-in-range")
    \cup Clause(free \/ (e.err = "" => must), "C03.accepted-out-of-range")
    \cup (IF e.err = "" /\ must
          THEN CASE e.kind = "int" -> Clause(NumEq(e.rep, e.arg), "C03.reports-value")
                 [] e.kind = "oct" -> Clause(e.same, "C03.reports-value")
                 [] e.kind = "oid" -> Clause(e.rep = [i \in 1..Len(e.arg) |-> e.arg[i].mag], "C03.reports-value")
                 [] e.kind = "ip" -> Clause(e.rep = e.arg /\ e.d = QuadOctets(e.arg), "C03.reports-value")
          ELSE {})

SameValue(a, b) ==
    /\ TagOf[a.t] = TagOf[b.t]
    /\ IF a.t \in IntTypes THEN NumEq(Num(a), Num(b))
       ELSE IF a.t \in OctTypes THEN a.d = b.d
       ELSE IF a.t = "OID" THEN a.ids = b.ids
       ELSE TRUE
EqClauses(e) ==
       Clause(e.err = "" /\ e.out = SameValue(e.a, e.b), "C03.equality")
    \cup Clause(e.err = "" /\ e.ne = ~SameValue(e.a, e.b), "C03.inequality")

----------------------------------------------------------------------------
\* C04: ids are sequences of magnitudes
\* decimal text of a magnitude, and the magnitude of decimal text
RECURSIVE DivSmall(_, _, _)     \* <<quotient digits, remainder>> of a base-256 number by d
DivSmall(m, d, r) == IF m = <<>> THEN <<<<>>, r>>
                     ELSE LET x == r * 256 + Head(m)
                              t == DivSmall(Tail(m), d, x % d)
                          IN <<<<x \div d>> \o t[1], t[2]>>
RECURSIVE Decimal(_)
Decimal(m) == IF Strip(m) = <<>> THEN <<>>
              ELSE LET q == DivSmall(Strip(m), 10, 0) IN Append(Decimal(q[1]), 48 + q[2])
DecText(m) == IF m = <<>> THEN <<48>> ELSE Decimal(m)
RECURSIVE Dotted(_)
Dotted(ids) == IF ids = <<>> THEN <<>>
               ELSE IF Len(ids) = 1 THEN DecText(ids[1])
               ELSE DecText(ids[1]) \o <<46>> \o Dotted(Tail(ids))
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF b = <<>> THEN FALSE
                 ELSE IF a = <<>> THEN TRUE
                 ELSE IF a[1] # b[1] THEN Less(a[1], b[1])
                 ELSE LexLess(Tail(a), Tail(b))
IsPrefixOf(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
\* Python's clamping of a slice bound
Clamp(i, n) == IF i < 0 THEN (IF i + n < 0 THEN 0 ELSE i + n) ELSE (IF i > n THEN n ELSE i)
SliceOf(s, a, b) ==
    LET n == Len(s)
        lo == IF a = <<>> THEN 0 ELSE Clamp(a[1], n)
        hi == IF b = <<>> THEN n ELSE Clamp(b[1], n)
    IN SubSeq(s, lo + 1, hi)

\* the sub-identifiers of one index value
Sub(o) == MagOfSmall(o)
Octs(d) == [i \in 1..Len(d) |-> Sub(d[i])]
IndexEnc(v, implied) ==
    IF v.t \in IntTypes THEN <<v.mag>>
    ELSE IF v.t = "IpAddress" THEN Octs(v.d)
    ELSE IF v.t \in OctTypes THEN (IF implied THEN <<>> ELSE <<Sub(Len(v.d))>>) \o Octs(v.d)
    ELSE IF v.t = "OID" THEN (IF implied THEN <<>> ELSE <<Sub(Len(v.ids))>>) \o v.ids
    ELSE <<>>
RECURSIVE IndexAll(_, _)
IndexAll(vs, implied) ==
    IF vs = <<>> THEN <<>>
    ELSE IndexEnc(vs[1], implied /\ Len(vs) = 1) \o IndexAll(Tail(vs), implied)
\* decoding one index value of type t: [k, v, n consumed]
BadIdx == [k |-> "rej", v |-> [t |-> "Null"], n |-> 0]
IsOctets(ids) == \A i \in 1..Len(ids) : Len(ids[i]) <= 1
ToOcts(ids) == [i \in 1..Len(ids) |-> SmallVal(ids[i])]
IndexDec(t, ids, implied) ==
    IF t \in NullTypes THEN [k |-> "ok", v |-> [t |-> t], n |-> 0]
    ELSE IF t \in IntTypes
    THEN IF ids = <<>> \/ ~InRange(t, FALSE, ids[1]) THEN BadIdx
         ELSE [k |-> "ok", v |-> [t |-> t, neg |-> FALSE, mag |-> ids[1]], n |-> 1]
    ELSE IF t = "IpAddress"
    THEN IF Len(ids) < 4 \/ ~IsOctets(SubSeq(ids, 1, 4)) THEN BadIdx
         ELSE [k |-> "ok", v |-> [t |-> t, d |-> ToOcts(SubSeq(ids, 1, 4))], n |-> 4]
    ELSE LET len == IF implied THEN Len(ids)
                    ELSE IF ids = <<>> \/ Len(ids[1]) > 1 THEN 1000 ELSE SmallVal(ids[1])
             off == IF implied THEN 0 ELSE 1
         IN IF off + len > Len(ids) THEN BadIdx
            ELSE LET body == SubSeq(ids, off + 1, off + len) IN
                 IF t = "OID"
                 THEN IF ~OidInRange(body) THEN BadIdx
                      ELSE [k |-> "ok", v |-> [t |-> "OID", ids |-> body], n |-> off + len]
                 ELSE IF ~IsOctets(body) THEN BadIdx
                      ELSE [k |-> "ok", v |-> [t |-> t, d |-> ToOcts(body)], n |-> off + len]
RECURSIVE IndexDecAll(_, _, _)
IndexDecAll(ts, ids, implied) ==        \* [k, vs]
    IF ts = <<>> THEN [k |-> IF ids = <<>> THEN "ok" ELSE "rej", vs |-> <<>>]
    ELSE LET d == IndexDec(ts[1], ids, implied /\ Len(ts) = 1) IN
         IF d.k # "ok" THEN [k |-> "rej", vs |-> <<>>]
         ELSE LET r == IndexDecAll(Tail(ts), SubSeq(ids, d.n + 1, Len(ids)), implied) IN
              [k |-> r.k, vs |-> <<d.v>> \o r.vs]
SameViews(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i].t = b[i].t /\ SameValue(a[i], b[i])

TextClauses(e) ==
       Clause(e.str = Dotted(e.ids), "C04.str")
    \cup Clause(e.ids # <<>> => e.perr = "" /\ e.parsed = e.ids /\ e.peq, "C04.parse")
    \cup Clause(e.ids # <<>> => e.derr = "" /\ e.dotted = e.ids, "C04.parse-leading-dot")
PairClauses(e) ==
       Clause(e.lt = LexLess(e.a, e.b), "C04.order")
    \cup Clause(e.eq = (e.a = e.b), "C04.equality")
    \cup Clause(e.starts = IsPrefixOf(e.b, e.a), "C04.startswith")
    \cup Clause(e.eq => e.hash, "C04.hash")
ExtClauses(e) ==
    LET x == e.a \o e.b IN
    IF OidInRange(x) THEN Clause(e.err = "" /\ e.out = x /\ e.old = e.a, "C04.extend")
    ELSE Clause(e.err = "ValueError", "C04.extend-out-of-range")
GetClauses(e) ==
    IF e.i >= Len(e.a) \/ e.i < -Len(e.a) THEN Clause(e.err = "IndexError", "C04.index-error")
    ELSE Clause(e.err = "" /\ e.out = e.a[IF e.i < 0 THEN Len(e.a) + e.i + 1 ELSE e.i + 1], "C04.index")
SlcClauses(e) == Clause(e.err = "" /\ e.out = SliceOf(e.a, e.lo, e.hi), "C04.slice")
IterClauses(e) == Clause(e.err = "" /\ e.out = e.a /\ e.len = Len(e.a), "C04.sequence")
WithClauses(e) ==       \* prefix, index values, IMPLIED -> OID and back
    LET x == e.a \o IndexAll(e.vs, e.implied) IN
    IF ~OidInRange(x) THEN Clause(e.err = "ValueError", "C04.index-too-long")
    ELSE    Clause(e.err = "" /\ e.out = x, "C04.withIndex")
       \cup Clause(e.err = "" => e.derr = "" /\ SameViews(e.back, e.vs), "C04.index-roundtrip")
       \cup Clause(IndexDecAll([i \in 1..Len(e.vs) |-> e.vs[i].t], IndexAll(e.vs, e.implied), e.implied).k = "ok", "SPEC.index")
DecIdxClauses(e) ==     \* e.a = OID, e.b = prefix, e.ts = types
    IF ~IsPrefixOf(e.b, e.a) THEN Clause(e.err = "BadPrefix", "C04.bad-prefix")
    ELSE LET r == IndexDecAll(e.ts, SubSeq(e.a, Len(e.b) + 1, Len(e.a)), e.implied) IN
         IF r.k # "ok" THEN Clause(e.err = "IndexDecodeError", "C04.index-error-type")
         ELSE Clause(e.err = "" /\ SameViews(e.back, r.vs), "C04.decodeIndex")

----------------------------------------------------------------------------
\* C26: composites compare by class and content, print as text that rebuilds them, and act as sequences
ClassOf(v) == IF v.t = "MessageV1" THEN "Message" ELSE IF v.t = "Integer" THEN "Integer32" ELSE v.t
Composite(v) == v.t \notin IntTypes \cup OctTypes \cup NullTypes \cup {"OID"}
SameThing(a, b) == IF Composite(a) # Composite(b) THEN FALSE
                   ELSE IF Composite(a) THEN ClassOf(a) = ClassOf(b) /\ Enc(a) = Enc(b)
                   ELSE SameValue(a, b)
CmpClauses(e) ==
       Clause(e.err = "", "C26.comparison-fails")
    \cup (IF e.err # "" THEN {} ELSE
          Clause(e.out = SameThing(e.a, e.b) /\ e.rev = e.out, "C26.equality")
    \cup Clause(e.ne = ~e.out, "C26.inequality"))
RECURSIVE AllNames(_)
AllNames(v) == IF v.t = "VarBind" THEN <<v.c[1].ids>>
               ELSE IF ~Composite(v) \/ v.t = "MessageFlags" THEN <<>>
               ELSE LET RECURSIVE Cat(_)
                        Cat(q) == IF q = <<>> THEN <<>> ELSE AllNames(Head(q)) \o Cat(Tail(q))
                    IN Cat(v.c)
At(p, s, i) == i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p
Find(p, s, from) == LET h == {i \in from..Len(s) : s[i] = p[1] /\ At(p, s, i)} IN
                    IF h = {} THEN 0 ELSE CHOOSE i \in h : \A j \in h : i <= j
RECURSIVE InOrder(_, _, _)
InOrder(ps, s, from) == IF ps = <<>> THEN TRUE
                        ELSE LET k == Find(ps[1], s, from) IN k # 0 /\ InOrder(Tail(ps), s, k + Len(ps[1]))
RepClauses(e) ==        \* e.w: what evaluating the representation of e.v gives; e.text: the text of e.v, when it was recorded
       Clause(e.err = "", "C26.representation")
    \cup (IF e.err # "" THEN {} ELSE Clause(ClassOf(e.w) = ClassOf(e.v) /\ Enc(e.w) = Enc(e.v) /\ e.eq, "C26.representation-differs"))
    \cup Clause(e.serr = "", "C26.text-fails")
    \cup (IF e.serr # "" \/ e.text = <<>> THEN {}
          ELSE LET n == AllNames(e.v) IN Clause(InOrder([i \in 1..Len(n) |-> Dotted(n[i])], e.text, 1), "C26.text-names"))
ItemIs(x, v) == x.t = v.t /\ Enc(x) = Enc(v)
SeqClauses(e) ==        \* a list of bindings, or a binding as a pair
    LET c == e.v.c
        n == Len(c) IN
       Clause(e.err = "" /\ e.len = n /\ Len(e.items) = n /\ \A i \in 1..n : ItemIs(e.items[i], c[i]), "C26.sequence")
    \cup (IF e.v.t # "VarBindList" THEN {} ELSE
          Clause(e.bool = (n > 0), "C26.truth")
    \cup Clause(\A k \in 1..Len(e.at) : LET i == e.at[k].i IN
                 IF i >= n \/ i < -n THEN e.at[k].err = "IndexError"
                 ELSE e.at[k].err = "" /\ ItemIs(e.at[k].x, c[IF i < 0 THEN n + i + 1 ELSE i + 1]), "C26.index")
    \cup Clause(\A k \in 1..Len(e.slices) : LET q == e.slices[k]
                                                  x == SliceOf(c, q.lo, q.hi) IN
                 Len(q.out) = Len(x) /\ \A i \in 1..Len(x) : ItemIs(q.out[i], x[i]), "C26.slice"))

Violated(st, e) ==
    CASE e.op = "tlv" -> TlvClauses(e)
      [] e.op = "rtlv" -> RtlvClauses(e)
      [] e.op = "cmp" -> CmpClauses(e)
      [] e.op = "rep" -> RepClauses(e)
      [] e.op = "seq" -> SeqClauses(e)
      [] e.op = "enc" -> EncClauses(e)
      [] e.op = "dec" -> DecClauses(e)
      [] e.op = "con" -> ConClauses(e)
      [] e.op = "eq" -> EqClauses(e)
      [] e.op = "text" -> TextClauses(e)
      [] e.op = "pair" -> PairClauses(e)
      [] e.op = "ext" -> ExtClauses(e)
      [] e.op = "get" -> GetClauses(e)
      [] e.op = "slc" -> SlcClauses(e)
      [] e.op = "iter" -> IterClauses(e)
      [] e.op = "with" -> WithClauses(e)
      [] e.op = "didx" -> DecIdxClauses(e)
      [] OTHER -> {"SPEC.unknown-event"}
=============================================================================
