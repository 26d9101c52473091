---- MODULE KeysTrace ----
(* Batch trace validation: every recorded execution must be a behaviour of Keys. *)
EXTENDS Keys, Json, TLC
Traces == JsonDeserialize("traces.json")
VARIABLES ti, l, st
Init == ti \in 1..Len(Traces) /\ l = 0 /\ st = InitSt(Traces[ti])
Next == /\ l < Len(Traces[ti].ev)
        /\ LET e == Traces[ti].ev[l + 1]
               v == Violated(st, e)
           IN IF v = {}
              THEN /\ l' = l + 1 /\ ti' = ti
                   /\ st' = Step(st, e)
              ELSE /\ PrintT("BAD " \o ToJson([ti |-> ti, l |-> l + 1, bad |-> v]))
                   /\ FALSE
====
