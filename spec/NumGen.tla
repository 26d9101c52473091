------------------------------- MODULE NumGen -------------------------------
(* Contract of snmp.utils.NumberGenerator for width n: every block of 2^n      *)
(* outputs is a permutation of the n-bit integers that ends with 0, and all    *)
(* blocks are equal.  Wide outputs are sequences of 16-bit limbs, highest first. *)
EXTENDS Integers, Sequences, FiniteSets

Clause(b, name) == IF b THEN {} ELSE {name}
Range(s) == {s[i] : i \in 1..Len(s)}
Lowest(n, signed) == IF signed THEN -(2 ^ (n - 1)) ELSE 0
Highest(n, signed) == IF signed THEN 2 ^ (n - 1) - 1 ELSE 2 ^ n - 1

InitSt(t) == <<>>
Violated(st, e) ==
    CASE e.op = "cycle" ->      \* two complete cycles of a narrow generator
            LET size == 2 ^ e.n
                one == SubSeq(e.out, 1, size)
                two == SubSeq(e.out, size + 1, 2 * size)
                all == Range(e.out)
            IN   Clause(\A x \in all : Lowest(e.n, e.signed) <= x /\ x <= Highest(e.n, e.signed), "C06.range")
            \cup Clause(Cardinality(Range(one)) = size, "C06.once")
            \cup Clause(one[size] = 0, "C06.zero-last")
            \cup Clause(one = two, "C06.repeat")
      [] e.op = "window" ->     \* the first outputs of a wide generator, as 16-bit limbs, highest first
            LET k == Len(e.out[1])
                bits == e.n - 16 * (k - 1)      \* of the highest limb
                hiMin == IF e.signed THEN -(2 ^ (bits - 1)) ELSE 0
                hiMax == IF e.signed THEN 2 ^ (bits - 1) - 1 ELSE 2 ^ bits - 1
                all == Range(e.out)
            IN   Clause(\A x \in all : /\ Len(x) = k /\ hiMin <= x[1] /\ x[1] <= hiMax
                                       /\ \A i \in 2..k : 0 <= x[i] /\ x[i] < 65536, "C06.range")
            \cup Clause(Cardinality(all) = Len(e.out), "C06.once")
            \cup Clause([i \in 1..k |-> 0] \notin all, "C06.zero-early")
      [] OTHER -> {"C06.unknown-event"}
Step(st, e) == st
=============================================================================
