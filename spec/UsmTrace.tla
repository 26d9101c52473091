---- MODULE UsmTrace ----
(* Batch trace validation: every recorded execution must be a behaviour of Usm, as far as the property in focus goes. *)
EXTENDS Usm, Json, TLC
Traces == JsonDeserialize("traces.json")
FocusList == JsonDeserialize("focus.json")
Focus == {FocusList[i] : i \in 1..Len(FocusList)}
VARIABLES ti, l, st
Init == ti \in 1..Len(Traces) /\ l = 0 /\ st = InitSt(Traces[ti])
Next == /\ l < Len(Traces[ti].ev)
        /\ LET e == Traces[ti].ev[l + 1]
               v == {c \in Violated(st, e) : c[1] \in Focus}
           IN IF v = {}
              THEN /\ l' = l + 1 /\ ti' = ti
                   /\ st' = Step(st, e)
              ELSE /\ PrintT("BAD " \o ToJson([ti |-> ti, l |-> l + 1, bad |-> {c[1] \o "." \o c[2] : c \in v}]))
                   /\ FALSE
====
