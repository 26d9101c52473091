------------------------------ MODULE MCNumGen ------------------------------
(* The generator as a state machine (previous + odd step, wrapping into the    *)
(* n-bit range), checked against the contract for every odd step.              *)
EXTENDS Integers, FiniteSets
CONSTANTS N, SIGNED
ASSUME N \in 1..12
VARIABLES step, prev, seen, count
Size == 2 ^ N
Wrap == IF SIGNED THEN 2 ^ (N - 1) - 1 ELSE Size - 1
Low == Wrap - Size + 1
Init == /\ step \in {2 * k - 1 : k \in 1..(2 ^ (N - 1))}
        /\ prev = 0 /\ seen = {} /\ count = 0
Next == /\ count < Size
        /\ prev' = (LET x == prev + step IN IF x > Wrap THEN x - Size ELSE x)
        /\ seen' = seen \cup {prev'}
        /\ count' = count + 1
        /\ UNCHANGED step
Range == \A x \in seen : Low <= x /\ x <= Wrap
Once == Cardinality(seen) = count
ZeroLast == (0 \in seen) <=> (count = Size)
EndsAtZero == (count = Size) => (prev = 0)
=============================================================================
