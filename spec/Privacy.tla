------------------------------- MODULE Privacy -------------------------------
(***************************************************************************)
(* RFC 3414 section 8 (CBC-DES) and RFC 3826 (CFB128-AES-128): initial     *)
(* values, modes of operation, padding, and the uniqueness of initial      *)
(* values.  The block ciphers themselves are uninterpreted: every event    *)
(* brings the blocks <<input, output>> of an independent implementation,   *)
(* and this module computes which inputs there have to be and what follows.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Bitwise

InitSt(t) == [used |-> {}]

Octets(n, w) == [i \in 1..w |-> (n \div (IF w - i = 3 THEN 16777216 ELSE IF w - i = 2 THEN 65536 ELSE IF w - i = 1 THEN 256 ELSE 1)) % 256]
XorSeq(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
BL(p) == IF p = "aes" THEN 16 ELSE 8
IV(p, key, boots, time, salt) == IF p = "aes" THEN Octets(boots, 4) \o Octets(time, 4) \o salt
                                 ELSE XorSeq(salt, SubSeq(key, 9, 16))
CipherKey(p, key) == SubSeq(key, 1, BL(p))
NBlocks(p, ct) == (Len(ct) + BL(p) - 1) \div BL(p)
Cut(ct, i, n) == SubSeq(ct, n * (i - 1) + 1, IF n * i < Len(ct) THEN n * i ELSE Len(ct))
(* what the block cipher is applied to *)
Input(p, iv, ct, i) == IF p = "aes" THEN (IF i = 1 THEN iv ELSE Cut(ct, i - 1, 16)) ELSE Cut(ct, i, 8)
Prev(iv, ct, i)     == IF i = 1 THEN iv ELSE Cut(ct, i - 1, 8)
TableOK(p, iv, ct, bl) == Len(bl) = NBlocks(p, ct) /\ \A i \in 1..Len(bl) : bl[i][1] = Input(p, iv, ct, i)
PlainBlock(p, iv, ct, bl, i) == LET c == Cut(ct, i, BL(p)) IN
                                IF p = "aes" THEN [j \in 1..Len(c) |-> c[j] ^^ bl[i][2][j]]
                                ELSE XorSeq(Prev(iv, ct, i), bl[i][2])
(* is x a prefix of the decryption? *)
Opens(p, iv, ct, bl, x) == /\ Len(x) <= Len(ct)
                           /\ \A i \in 1..NBlocks(p, ct) :
                                LET b == PlainBlock(p, iv, ct, bl, i)
                                    o == BL(p) * (i - 1) IN
                                \A j \in 1..Len(b) : o + j <= Len(x) => x[o + j] = b[j]

SaltOK(e) == Len(e.salt) = 8
EncBad(st, e) ==
    IF e.exc # "" THEN {"C21.encryption-failed"}
    ELSE IF ~SaltOK(e) THEN {"C21.salt-length"}
    ELSE LET iv == IV(e.p, e.key, e.boots, e.time, e.salt)
             pad == Len(e.ct) - Len(e.text) IN
         IF e.p = "des" /\ Len(e.ct) % 8 # 0 THEN {"C21.ciphertext-length"}
         ELSE IF e.kb # CipherKey(e.p, e.key) \/ ~TableOK(e.p, iv, e.ct, e.bl) THEN {"SPEC.blocks"}
         ELSE (IF pad < 0 \/ pad > (IF e.p = "des" THEN 8 ELSE 0) THEN {"C21.padding"} ELSE {})
              \cup (IF Opens(e.p, iv, e.ct, e.bl, e.text) THEN {} ELSE {"C21.does-not-decrypt"})
              \cup (IF <<e.key, iv>> \in st.used THEN {"C21.iv-reused"} ELSE {})
EncStep(st, e) == IF e.exc # "" \/ ~SaltOK(e) THEN st ELSE [st EXCEPT !.used = @ \cup {<<e.key, IV(e.p, e.key, e.boots, e.time, e.salt)>>}]

Conforming(e) == SaltOK(e) /\ (e.p = "des" => Len(e.ct) % 8 = 0)
DecBad(st, e) ==
    IF ~Conforming(e) THEN (IF e.out = "reject" THEN {} ELSE IF e.out = "ok" THEN {"C21.malformed-accepted"} ELSE {"C21.exception"})
    ELSE IF Len(e.ct) = 0 THEN (IF e.out \in {"reject", "ok"} THEN {} ELSE {"C21.exception"})
    ELSE IF e.out # "ok" THEN {"C21.decryption-refused"}
    ELSE LET iv == IV(e.p, e.key, e.boots, e.time, e.salt) IN
         IF e.kb # CipherKey(e.p, e.key) \/ ~TableOK(e.p, iv, e.ct, e.bl) THEN {"SPEC.blocks"}
         ELSE IF Len(e.text) < Len(e.ct) \/ Len(e.text) > Len(e.ct) + 8 THEN {"C21.plaintext-length"}
         ELSE IF Opens(e.p, iv, e.ct, e.bl, SubSeq(e.text, 1, Len(e.ct))) THEN {} ELSE {"C21.wrong-plaintext"}

Violated(st, e) ==
    CASE e.k = "enc" -> EncBad(st, e)
      [] e.k = "dec" -> DecBad(st, e)
      \* a long series of encryptions, by their initial values
      [] e.k = "many" -> IF Cardinality({e.ivs[i] : i \in 1..Len(e.ivs)}) = Len(e.ivs) THEN {} ELSE {"C21.iv-reused"}
      [] e.k = "key" -> (IF e.len >= 16 THEN (IF e.exc = "" THEN {} ELSE {"C21.key-refused"})
                         ELSE IF e.exc = "ValueError" THEN {} ELSE {"C21.short-key"})
      [] OTHER -> {"SPEC.event"}
Step(st, e) == IF e.k = "enc" THEN EncStep(st, e) ELSE st
=============================================================================
