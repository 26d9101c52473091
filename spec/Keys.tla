--------------------------------- MODULE Keys ---------------------------------
(***************************************************************************)
(* RFC 3414 (sections 2.6, 6, 7, A.2) and RFC 7860: from secrets to keys   *)
(* and message authentication codes.  Hash functions are uninterpreted: a  *)
(* trace brings a table of digests made by an independent implementation,  *)
(* and this module says which octets have to be hashed.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Bitwise

InitSt(t) == [h |-> t.h]

Algs == {"md5", "sha1", "sha224", "sha256", "sha384", "sha512"}
MacLen(a) == CASE a = "md5" -> 12 [] a = "sha1" -> 12 [] a = "sha224" -> 16 [] a = "sha256" -> 24 [] a = "sha384" -> 32 [] a = "sha512" -> 48
Block(a)  == IF a \in {"sha384", "sha512"} THEN 128 ELSE 64

(* the digest of octets `pre` (rep = 1), or of the first `rep` octets of the endless repetition of `pre` *)
NoDigest == <<-1>>
H(st, a, rep, pre) == LET s == {i \in 1..Len(st.h) : st.h[i].a = a /\ st.h[i].rep = rep /\ st.h[i].pre = pre} IN
                      IF s = {} THEN NoDigest ELSE st.h[CHOOSE i \in s : TRUE].dig

Million == 1048576
PassKey(st, a, secret) == H(st, a, Million, secret)
Local(st, a, key, engine) == H(st, a, 1, key \o engine \o key)
Pad(a, key, x) == [i \in 1..Block(a) |-> IF i <= Len(key) THEN key[i] ^^ x ELSE x]
Mac(st, a, key, msg) ==
    LET inner == H(st, a, 1, Pad(a, key, 54) \o msg)
        outer == H(st, a, 1, Pad(a, key, 92) \o inner) IN
    IF inner = NoDigest \/ outer = NoDigest THEN NoDigest ELSE SubSeq(outer, 1, MacLen(a))

(* secrets of a user: its own, or else the common one *)
Own(secret, common) == IF secret = 0 THEN common ELSE secret
Level(e) == IF ~e.auth THEN 0 ELSE IF ~e.priv THEN 1 ELSE 2

Is(out, want, c) == IF want = NoDigest THEN {"SPEC.digest-missing"} ELSE IF out = want THEN {} ELSE {c}
Violated(st, e) ==
    CASE e.k = "computekey" -> IF e.exc # "" THEN {"C22.exception"} ELSE Is(e.out, PassKey(st, e.a, e.secret), "C22.password-to-key")
      [] e.k = "localize"   -> IF e.exc # "" THEN {"C22.exception"} ELSE Is(e.out, Local(st, e.a, e.key, e.engine), "C22.localization")
      [] e.k = "both"       -> IF e.exc # "" THEN {"C22.exception"} ELSE Is(e.out, Local(st, e.a, PassKey(st, e.a, e.secret), e.engine), "C22.localization")
      [] e.k = "sign"       -> IF e.exc # "" THEN {"C22.exception"}
                               ELSE Is(e.out, Mac(st, e.a, e.key, e.msg), "C22.mac") \cup (IF e.zeros = MacLen(e.a) THEN {} ELSE {"C22.mac-length"})
      \* the octets fed to the hash function, as pieces <<offset, length>> of the endlessly repeated secret (negative: a foreign octet)
      [] e.k = "stream"     -> IF e.n = Million /\ Len(e.runs) = 1 /\ e.runs[1] = <<0, Million>> THEN {} ELSE {"C22.stream"}
      \* a user's messages: which of the secrets 1 (authentication), 2 (privacy), 3 (common) they were made with
      [] e.k = "user"       -> IF e.exc # "" THEN {"C22.exception"}
                               ELSE (IF e.auth /\ Own(e.as, e.cs) \notin {e.aset[i] : i \in 1..Len(e.aset)} THEN {"C22.authentication-secret"} ELSE {})
                                    \cup (IF e.auth /\ e.priv /\ Own(e.ps, e.cs) \notin {e.pset[i] : i \in 1..Len(e.pset)} THEN {"C22.privacy-secret"} ELSE {})
                                    \cup (IF e.lvl # Level(e) THEN {"C22.level", "C20.level"} ELSE {})
      [] OTHER -> {"SPEC.event"}
Step(st, e) == st
=============================================================================
