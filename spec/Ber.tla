-------------------------------- MODULE Ber --------------------------------
(* Executable specification of the BER encoding of every SMI value, PDU and   *)
(* message that python-snmp exchanges.                                        *)
(*                                                                            *)
(* A value is described by a "view": a record whose field t names its type.   *)
(*   integers   [t, neg, mag]   mag = big-endian base-256 digits, no leading 0 *)
(*   octets     [t, d]                                                         *)
(*   nulls      [t]                                                            *)
(*   OID        [t, ids]        ids = sequence of magnitudes                   *)
(*   structures [t, c]          c = sequence of views                          *)
(* Enc(view) is its exact encoding; Canon(type, octets) is the meaning of      *)
(* arbitrary octets: "ok" with the canonical (exact) encoding of the value,    *)
(* "rej" when they must be refused, "any" when BER leaves room (see `Any`).    *)
EXTENDS Integers, Sequences, FiniteSets

Octet == 0..255
TagOf == [
    Integer |-> 2, Integer32 |-> 2, OctetString |-> 4, Null |-> 5, OID |-> 6,
    IpAddress |-> 64, Counter32 |-> 65, Unsigned32 |-> 66, Gauge32 |-> 66,
    TimeTicks |-> 67, Opaque |-> 68, Counter64 |-> 70,
    NoSuchObject |-> 128, NoSuchInstance |-> 129, EndOfMibView |-> 130,
    VarBind |-> 48, VarBindList |-> 48,
    GetRequestPDU |-> 160, GetNextRequestPDU |-> 161, ResponsePDU |-> 162,
    SetRequestPDU |-> 163, GetBulkRequestPDU |-> 165, InformRequestPDU |-> 166,
    SNMPv2TrapPDU |-> 167, ReportPDU |-> 168,
    Message |-> 48, VersionOnlyMessage |-> 48, HeaderData |-> 48, MessageFlags |-> 4,
    ScopedPDU |-> 48, SNMPv3Message |-> 48, UsmSecurityParameters |-> 48 ]

IntTypes == {"Integer", "Integer32", "Counter32", "Unsigned32", "Gauge32", "TimeTicks", "Counter64"}
OctTypes == {"OctetString", "IpAddress", "Opaque", "MessageFlags"}
NullTypes == {"Null", "NoSuchObject", "NoSuchInstance", "EndOfMibView"}
PduTypes == {"GetRequestPDU", "GetNextRequestPDU", "ResponsePDU", "SetRequestPDU",
             "InformRequestPDU", "SNMPv2TrapPDU", "ReportPDU"}
V1Types == {"GetRequestPDU", "GetNextRequestPDU", "ResponsePDU", "SetRequestPDU"}
AllPduTypes == PduTypes \cup {"GetBulkRequestPDU"}
\* the types a variable binding may carry, one per tag
ValueTypes == {"Integer32", "OctetString", "Null", "OID", "IpAddress", "Counter32", "Gauge32",
               "TimeTicks", "Opaque", "Counter64", "NoSuchObject", "NoSuchInstance", "EndOfMibView"}

----------------------------------------------------------------------------
\* magnitudes (base-256 digit sequences)
RECURSIVE Strip(_)
Strip(s) == IF s # <<>> /\ s[1] = 0 THEN Strip(Tail(s)) ELSE s

\* lexicographic comparison of equally long digit sequences, then by length
RECURSIVE LessSame(_, _)
LessSame(a, b) == IF a = <<>> THEN FALSE
                  ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LessSame(Tail(a), Tail(b))
Less(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LessSame(a, b)

RECURSIVE SmallVal(_)       \* value of a magnitude of at most 3 digits
SmallVal(s) == IF s = <<>> THEN 0 ELSE SmallVal(SubSeq(s, 1, Len(s) - 1)) * 256 + s[Len(s)]

\* base-256 -> bits -> base-128
BitsOf(b, k) == (b \div (2 ^ (k - 1))) % 2                       \* k = 1 is the lowest bit
ToBits(s) == [i \in 1..(8 * Len(s)) |-> BitsOf(s[((i - 1) \div 8) + 1], 8 - ((i - 1) % 8))]
FromBits(bits, w) ==        \* group into w-bit digits, most significant first
    LET n == Len(bits)
        k == (n + w - 1) \div w
        pad == k * w - n
        bit(j) == IF j <= pad THEN 0 ELSE bits[j - pad]
        RECURSIVE val(_, _)
        val(g, m) == IF m = 0 THEN 0 ELSE 2 * val(g, m - 1) + bit((g - 1) * w + m)
    IN [g \in 1..k |-> val(g, w)]
BitsOfDigits(s, w) == [i \in 1..(w * Len(s)) |-> BitsOf(s[((i - 1) \div w) + 1], w - ((i - 1) % w))]
ToBase128(mag) == LET d == Strip(FromBits(ToBits(mag), 7)) IN IF d = <<>> THEN <<0>> ELSE d
FromBase128(d) == Strip(FromBits(BitsOfDigits(d, 7), 8))

----------------------------------------------------------------------------
\* encoding
RECURSIVE MagOfSmall(_)
MagOfSmall(n) == IF n = 0 THEN <<>> ELSE Append(MagOfSmall(n \div 256), n % 256)
EncLen(n) == IF n < 128 THEN <<n>> ELSE LET m == MagOfSmall(n) IN <<128 + Len(m)>> \o m
TLV(tag, body) == <<tag>> \o EncLen(Len(body)) \o body

\* minimal two's complement
Complement(mag, n) ==       \* 256^n - mag as n digits (mag > 0, Len(mag) <= n)
    LET pad == [i \in 1..(n - Len(mag)) |-> 0] \o mag
        inv == [i \in 1..n |-> 255 - pad[i]]
        \* carry of +1 passes position i iff every lower digit is 255
        carry(i) == \A j \in (i + 1)..n : inv[j] = 255
    IN [i \in 1..n |-> IF carry(i) THEN (inv[i] + 1) % 256 ELSE inv[i]]
IsPowerHalf(mag) == mag # <<>> /\ mag[1] = 128 /\ \A i \in 2..Len(mag) : mag[i] = 0
EncIntBody(neg, mag) ==
    IF mag = <<>> THEN <<0>>
    ELSE IF ~neg THEN (IF mag[1] >= 128 THEN <<0>> \o mag ELSE mag)
    ELSE LET n == IF mag[1] < 128 \/ IsPowerHalf(mag) THEN Len(mag) ELSE Len(mag) + 1
         IN Complement(mag, n)

EncSubId(mag) == LET d == ToBase128(mag) IN [i \in 1..Len(d) |-> IF i < Len(d) THEN d[i] + 128 ELSE d[i]]
RECURSIVE EncSubIds(_)
EncSubIds(ids) == IF ids = <<>> THEN <<>> ELSE EncSubId(Head(ids)) \o EncSubIds(Tail(ids))
EncOidBody(ids) ==
    LET x == IF Len(ids) >= 1 THEN SmallVal(ids[1]) ELSE 0
        y == IF Len(ids) >= 2 THEN SmallVal(ids[2]) ELSE 0
    IN <<40 * x + y>> \o EncSubIds(SubSeq(ids, 3, Len(ids)))

RECURSIVE Enc(_)
RECURSIVE EncAll(_)
EncAll(c) == IF c = <<>> THEN <<>> ELSE Enc(Head(c)) \o EncAll(Tail(c))
Enc(v) == TLV(TagOf[v.t],
    IF v.t \in IntTypes THEN EncIntBody(v.neg, v.mag)
    ELSE IF v.t \in OctTypes THEN v.d
    ELSE IF v.t \in NullTypes THEN <<>>
    ELSE IF v.t = "OID" THEN EncOidBody(v.ids)
    ELSE EncAll(v.c))

----------------------------------------------------------------------------
\* ranges (as the SMI and the documentation give them)
Limit32 == <<128, 0, 0, 0>>
InRange(t, neg, mag) ==
    CASE t \in {"Integer", "Integer32"} -> Less(mag, Limit32) \/ (neg /\ mag = Limit32)
      [] t = "Counter64" -> ~neg /\ Len(mag) <= 8
      [] OTHER -> ~neg /\ Len(mag) <= 4
OidInRange(ids) ==
    /\ Len(ids) <= 128
    /\ \A i \in 1..Len(ids) : Len(ids[i]) <= 4
    /\ Len(ids) >= 1 => Less(ids[1], <<3>>)
    /\ Len(ids) >= 2 => Less(ids[2], <<40>>)
MaxOctets == 65535

----------------------------------------------------------------------------
\* decoding: results are [k |-> "ok", v |-> canonical octets], Rej or Any
Ok(v) == [k |-> "ok", v |-> v]
Rej == [k |-> "rej", v |-> <<>>]
Any == [k |-> "any", v |-> <<>>]

\* one TLV: [k, tag, body, rest]
ReadRej == [k |-> "rej", tag |-> 0, body |-> <<>>, rest |-> <<>>]
ReadAny == [k |-> "any", tag |-> 0, body |-> <<>>, rest |-> <<>>]
RECURSIVE LongTag(_, _)
LongTag(bs, acc) ==         \* number of a multi-octet tag, capped
    IF bs = <<>> THEN "rej"
    ELSE LET n == IF acc > 1000 THEN acc ELSE acc * 128 + (bs[1] % 128)
         IN IF bs[1] >= 128 THEN LongTag(Tail(bs), n)
            ELSE IF n < 31 THEN "any" ELSE "big"
ReadBody(tag, bs) ==        \* bs starts at the length
    IF bs = <<>> THEN ReadRej
    ELSE LET l0 == bs[1] IN
      IF l0 < 128
      THEN IF l0 > Len(bs) - 1 THEN ReadRej
           ELSE [k |-> "ok", tag |-> tag, body |-> SubSeq(bs, 2, 1 + l0), rest |-> SubSeq(bs, 2 + l0, Len(bs))]
      ELSE IF l0 = 128 THEN ReadAny
      ELSE LET n == l0 - 128 IN
           IF n > Len(bs) - 1 THEN ReadRej
           ELSE LET m == Strip(SubSeq(bs, 2, 1 + n)) IN
                IF Len(m) > 3 THEN ReadRej
                ELSE LET len == SmallVal(m) IN
                     IF len > Len(bs) - 1 - n THEN ReadRej
                     ELSE [k |-> "ok", tag |-> tag, body |-> SubSeq(bs, 2 + n, 1 + n + len),
                           rest |-> SubSeq(bs, 2 + n + len, Len(bs))]
Read(bs) ==
    IF bs = <<>> THEN ReadRej
    ELSE IF bs[1] % 32 = 31
    THEN LET r == LongTag(Tail(bs), 0) IN
         IF r = "any" THEN ReadAny ELSE ReadRej   \* no SNMP type has such a tag
    ELSE ReadBody(bs[1], Tail(bs))

\* integers
DecInt(t, b) ==
    IF b = <<>> THEN Any
    ELSE LET neg == b[1] >= 128
             mag == IF neg THEN Strip(Complement(b, Len(b))) ELSE Strip(b)
             minimal == Len(b) = 1 \/ ~((b[1] = 0 /\ b[2] < 128) \/ (b[1] = 255 /\ b[2] >= 128))
         IN IF ~InRange(t, neg, mag) THEN Rej
            ELSE IF ~minimal THEN Any
            ELSE Ok(TLV(TagOf[t], b))

RECURSIVE SubIds(_, _)
SubIds(b, cur) ==           \* [k, ids] of the octets after the first
    IF b = <<>> THEN [k |-> IF cur = <<>> THEN "ok" ELSE "rej", ids |-> <<>>]
    ELSE LET d == Append(cur, b[1] % 128) IN
         IF b[1] >= 128 THEN SubIds(Tail(b), d)
         ELSE LET r == SubIds(Tail(b), <<>>) IN
              [k |-> IF r.k = "rej" THEN "rej"
                     ELSE IF Len(FromBase128(d)) > 4 THEN "rej"
                     ELSE IF Len(d) > 1 /\ d[1] = 0 THEN "any" ELSE r.k,
               ids |-> <<FromBase128(d)>> \o r.ids]
DecOid(b) ==
    IF b = <<>> THEN Rej
    ELSE LET r == SubIds(Tail(b), <<>>) IN
         IF r.k = "rej" \/ Len(r.ids) + 2 > 128 THEN Rej
         ELSE IF b[1] >= 120 \/ r.k = "any" THEN Any
         ELSE Ok(TLV(6, b))

DecBody(t, b) ==            \* primitive types
    CASE t \in IntTypes -> DecInt(t, b)
      [] t = "OctetString" -> IF Len(b) > MaxOctets THEN Rej ELSE Ok(TLV(4, b))
      [] t = "IpAddress" -> IF Len(b) # 4 THEN Rej ELSE Ok(TLV(64, b))
      [] t = "Opaque" -> Ok(TLV(68, b))
      [] t = "OID" -> DecOid(b)
      [] t \in NullTypes -> IF b = <<>> THEN Ok(TLV(TagOf[t], b)) ELSE Any

\* a field read from the front of bs: [k, v (canonical octets), body, rest]
FieldOf(r, d) == [k |-> d.k, v |-> d.v, body |-> r.body, rest |-> r.rest]
Field(t, bs) ==
    LET r == Read(bs) IN
    IF r.k # "ok" THEN FieldOf(r, [k |-> r.k, v |-> <<>>])
    ELSE IF r.tag # TagOf[t] THEN FieldOf(r, Rej)
    ELSE FieldOf(r, DecBody(t, r.body))

\* combine in order: the first field that is not "ok" decides
Worst(ks) == LET bad == {i \in 1..Len(ks) : ks[i] # "ok"} IN
             IF bad = {} THEN "ok" ELSE ks[CHOOSE i \in bad : \A j \in bad : i <= j]

\* signed value of a small integer field, capped to -1 (negative) .. 2^24
IntCap(b) == IF b[1] >= 128 THEN -1
             ELSE LET m == Strip(b) IN IF Len(m) > 3 THEN 16777216 ELSE SmallVal(m)

DecVarBind(b) ==
    LET n == Field("OID", b) IN
    IF n.k # "ok" THEN [k |-> n.k, v |-> <<>>]
    ELSE LET r == Read(n.rest) IN
      IF r.k # "ok" THEN [k |-> r.k, v |-> <<>>]
      ELSE IF r.rest # <<>> THEN Rej
      ELSE LET ts == {t \in ValueTypes : TagOf[t] = r.tag} IN
           IF ts = {} THEN Rej
           ELSE LET d == DecBody(CHOOSE t \in ts : TRUE, r.body) IN
                IF d.k # "ok" THEN d ELSE Ok(TLV(48, n.v \o d.v))
RECURSIVE DecVarBinds(_)
DecVarBinds(b) ==           \* [k, v, n]
    IF b = <<>> THEN [k |-> "ok", v |-> <<>>, n |-> 0]
    ELSE LET r == Read(b) IN
      IF r.k # "ok" THEN [k |-> r.k, v |-> <<>>, n |-> 0]
      ELSE IF r.tag # 48 THEN [k |-> "rej", v |-> <<>>, n |-> 0]
      ELSE LET d == DecVarBind(r.body) IN
           IF d.k # "ok" THEN [k |-> d.k, v |-> <<>>, n |-> 0]
           ELSE LET m == DecVarBinds(r.rest) IN
                IF m.k # "ok" THEN m ELSE [k |-> "ok", v |-> d.v \o m.v, n |-> m.n + 1]

DecPdu(t, b) ==
    LET f1 == Field("Integer", b) IN
    IF f1.k # "ok" THEN [k |-> f1.k, v |-> <<>>]
    ELSE LET f2 == Field("Integer", f1.rest) IN
    IF f2.k # "ok" THEN [k |-> f2.k, v |-> <<>>]
    ELSE LET f3 == Field("Integer", f2.rest) IN
    IF f3.k # "ok" THEN [k |-> f3.k, v |-> <<>>]
    ELSE LET r == Read(f3.rest) IN
    IF r.k # "ok" THEN [k |-> r.k, v |-> <<>>]
    ELSE IF r.tag # 48 \/ r.rest # <<>> THEN Rej
    ELSE LET l == DecVarBinds(r.body)
             a == IntCap(f2.body)
             i == IntCap(f3.body)
         IN IF l.k # "ok" THEN [k |-> l.k, v |-> <<>>]
            ELSE LET good == Ok(TLV(TagOf[t], f1.v \o f2.v \o f3.v \o TLV(48, l.v))) IN
                 IF t = "GetBulkRequestPDU"
                 THEN IF a < 0 \/ i < 0 THEN Rej ELSE good
                 ELSE IF a < 0 \/ a > 18 THEN Rej
                 ELSE IF a = 0 /\ i # 0 THEN Any
                 ELSE IF i < 0 \/ i > l.n THEN Rej
                 ELSE good

\* a PDU at the front of bs, which must be the last field
LastPdu(bs, types) ==
    LET r == Read(bs) IN
    IF r.k # "ok" THEN [k |-> r.k, v |-> <<>>]
    ELSE LET ts == {t \in types : TagOf[t] = r.tag} IN
         IF ts = {} THEN Rej
         ELSE IF r.rest # <<>> THEN Rej
         ELSE DecPdu(CHOOSE t \in ts : TRUE, r.body)

DecMessage(b, types) ==
    LET v == Field("Integer", b) IN
    IF v.k # "ok" THEN [k |-> v.k, v |-> <<>>]
    ELSE IF IntCap(v.body) \notin {0, 1} THEN Rej
    ELSE LET c == Field("OctetString", v.rest) IN
         IF c.k # "ok" THEN [k |-> c.k, v |-> <<>>]
         ELSE LET p == LastPdu(c.rest, types) IN
              IF p.k # "ok" THEN p ELSE Ok(TLV(48, v.v \o c.v \o p.v))
DecVersionOnly(b) ==
    LET v == Field("Integer", b) IN
    IF v.k # "ok" THEN [k |-> v.k, v |-> <<>>]
    ELSE IF IntCap(v.body) \notin {0, 1, 3} THEN Rej
    ELSE Ok(TLV(48, v.v))

\* msgFlags: only the low three bits have a meaning
FlagsByte(o) == o % 8
DecFlagsBody(b) ==
    IF b = <<>> THEN Rej
    ELSE LET f == FlagsByte(b[1]) IN
         IF f % 4 = 2 THEN Rej
         ELSE IF Len(b) > 1 THEN Any
         ELSE Ok(TLV(4, <<f>>))
DecHeader(b) ==             \* [k, v, priv]
    LET bad(k) == [k |-> k, v |-> <<>>, priv |-> FALSE]
        f1 == Field("Integer", b) IN
    IF f1.k # "ok" THEN bad(f1.k)
    ELSE LET f2 == Field("Integer", f1.rest) IN
    IF f2.k # "ok" THEN bad(f2.k)
    ELSE LET r == Read(f2.rest) IN
    IF r.k # "ok" THEN bad(r.k)
    ELSE IF r.tag # 4 THEN bad("rej")
    ELSE LET fl == DecFlagsBody(r.body) IN
    IF fl.k # "ok" THEN bad(fl.k)
    ELSE LET f4 == Field("Integer", r.rest) IN
    IF f4.k # "ok" THEN bad(f4.k)
    ELSE IF f4.rest # <<>> THEN bad("rej")
    ELSE IF IntCap(f1.body) < 0 \/ IntCap(f2.body) < 484 THEN bad("rej")
    ELSE IF IntCap(f4.body) # 3 THEN bad(IF IntCap(f4.body) < 1 \/ IntCap(f4.body) > 3 THEN "rej" ELSE "any")
    ELSE [k |-> "ok", v |-> TLV(48, f1.v \o f2.v \o fl.v \o f4.v), priv |-> (FlagsByte(r.body[1]) \div 2) % 2 = 1]
DecScoped(b) ==
    LET e == Field("OctetString", b) IN
    IF e.k # "ok" THEN [k |-> e.k, v |-> <<>>]
    ELSE LET c == Field("OctetString", e.rest) IN
         IF c.k # "ok" THEN [k |-> c.k, v |-> <<>>]
         ELSE LET p == LastPdu(c.rest, AllPduTypes) IN
              IF p.k # "ok" THEN p ELSE Ok(TLV(48, e.v \o c.v \o p.v))
DecV3(b) ==
    LET v == Field("Integer", b) IN
    IF v.k # "ok" THEN [k |-> v.k, v |-> <<>>]
    ELSE IF IntCap(v.body) # 3 THEN Rej
    ELSE LET h == Read(v.rest) IN
    IF h.k # "ok" THEN [k |-> h.k, v |-> <<>>]
    ELSE IF h.tag # 48 THEN Rej
    ELSE LET hd == DecHeader(h.body) IN
    IF hd.k # "ok" THEN [k |-> hd.k, v |-> <<>>]
    ELSE LET s == Field("OctetString", h.rest) IN
    IF s.k # "ok" THEN [k |-> s.k, v |-> <<>>]
    ELSE IF hd.priv
    THEN LET e == Field("OctetString", s.rest) IN
         IF e.k # "ok" THEN [k |-> e.k, v |-> <<>>]
         ELSE IF e.rest # <<>> THEN Rej
         ELSE Ok(TLV(48, v.v \o hd.v \o s.v \o e.v))
    ELSE LET p == Read(s.rest) IN
         IF p.k # "ok" THEN [k |-> p.k, v |-> <<>>]
         ELSE IF p.tag # 48 \/ p.rest # <<>> THEN Rej
         ELSE LET d == DecScoped(p.body) IN
              IF d.k # "ok" THEN d ELSE Ok(TLV(48, v.v \o hd.v \o s.v \o d.v))
DecUsm(b) ==
    LET f1 == Field("OctetString", b) IN
    IF f1.k # "ok" THEN [k |-> f1.k, v |-> <<>>]
    ELSE LET f2 == Field("Integer", f1.rest) IN
    IF f2.k # "ok" THEN [k |-> f2.k, v |-> <<>>]
    ELSE LET f3 == Field("Integer", f2.rest) IN
    IF f3.k # "ok" THEN [k |-> f3.k, v |-> <<>>]
    ELSE LET f4 == Field("OctetString", f3.rest) IN
    IF f4.k # "ok" THEN [k |-> f4.k, v |-> <<>>]
    ELSE LET f5 == Field("OctetString", f4.rest) IN
    IF f5.k # "ok" THEN [k |-> f5.k, v |-> <<>>]
    ELSE LET f6 == Field("OctetString", f5.rest) IN
    IF f6.k # "ok" THEN [k |-> f6.k, v |-> <<>>]
    ELSE IF f6.rest # <<>> \/ IntCap(f2.body) < 0 \/ IntCap(f3.body) < 0 THEN Rej
    ELSE Ok(TLV(48, f1.v \o f2.v \o f3.v \o f4.v \o f5.v \o f6.v))

DecStruct(t, b) ==
    CASE t = "VarBind" -> DecVarBind(b)
      [] t = "VarBindList" -> LET l == DecVarBinds(b) IN
                              IF l.k # "ok" THEN [k |-> l.k, v |-> <<>>] ELSE Ok(TLV(48, l.v))
      [] t \in AllPduTypes -> DecPdu(t, b)
      [] t = "Message" -> DecMessage(b, AllPduTypes)
      [] t = "MessageV1" -> DecMessage(b, V1Types)
      [] t = "VersionOnlyMessage" -> DecVersionOnly(b)
      [] t = "HeaderData" -> LET h == DecHeader(b) IN [k |-> h.k, v |-> h.v]
      [] t = "MessageFlags" -> DecFlagsBody(b)
      [] t = "ScopedPDU" -> DecScoped(b)
      [] t = "SNMPv3Message" -> DecV3(b)
      [] t = "UsmSecurityParameters" -> DecUsm(b)
      [] OTHER -> DecBody(t, b)

\* Decoding all of bs (leftovers = FALSE), or its front: [k, v, rest]
Canon(t, bs, leftovers) ==
    LET r == Read(bs)
        tag == IF t = "MessageV1" THEN 48 ELSE TagOf[t] IN
    IF r.k # "ok" THEN [k |-> r.k, v |-> <<>>, rest |-> <<>>]
    ELSE IF r.tag # tag THEN [k |-> "rej", v |-> <<>>, rest |-> <<>>]
    ELSE IF ~leftovers /\ r.rest # <<>> THEN [k |-> "rej", v |-> <<>>, rest |-> <<>>]
    ELSE LET d == DecStruct(t, r.body) IN [k |-> d.k, v |-> d.v, rest |-> r.rest]
=============================================================================
