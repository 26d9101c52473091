------------------------------ MODULE UsmModel ------------------------------
(***************************************************************************)
(* A design of the user-based security model's registry and clock keeping, *)
(* and around it engines with real clocks that reboot, namespaces that     *)
(* claim and release engines, and an adversary who delivers any message    *)
(* ever sent, at any time and as often as it likes, tampers with messages, *)
(* and forges unauthenticated ones.                                        *)
(* The design keeps a boot instant per engine, as the library does; every  *)
(* step emits the events of module Usm, and TLC checks that the design     *)
(* satisfies that contract and the guarantees stated at the end.           *)
(* Behaviours (hist) are replayed against the real library.                *)
(***************************************************************************)
EXTENDS Usm, TLC, Json
CONSTANTS N,        \* steps
          NX, NN,   \* engines, namespaces
          Steps,    \* how the clock may advance, in ticks
          NSent,    \* messages the engines send
          MaxBoots, \* 0: engines have rebooted often, the next reboot reaches the maximum
          Keep
VARIABLES n, now, eng, sent, tk, reg, cs, bad, hist, got
Hints == {<<0, 0>>, <<2, 1900000>>, <<MaxInt, 5>>}     \* <<boots, time>> an adversary claims
vars == <<n, now, eng, sent, tk, reg, cs, bad, hist, got>>
view == <<n, now, eng, sent, tk, reg, cs, bad, got>>

(* user 1 exists in every namespace; in namespace i it has configuration i.  eng[x]: the engine's boots and boot instant, and *)
(* the configuration it knows the user by (engine x is administered by namespace ((x - 1) % NN) + 1). *)
Home(x) == ((x - 1) % NN) + 1
Init == /\ n = 0 /\ now = 0 /\ sent = {} /\ bad = {} /\ hist = <<>>
        /\ eng = [x \in 1..NX |-> [boots |-> IF MaxBoots = 0 THEN MaxInt - 1 ELSE 3, born |-> -1000 * TPS]]
        /\ tk = [x \in 1..NX |-> [in |-> FALSE, auth |-> FALSE, boots |-> 0, born |-> 0]]
        /\ reg = [x \in 1..NX |-> <<0, 0>>]
        /\ got = [x \in 1..NX |-> 0]
        /\ cs = LET s0 == InitSt([caps |-> [c \in 1..NN |-> 1], nn |-> NN, nu |-> 1, ne |-> NX])
                IN [s0 EXCEPT !.cfg = [i \in 1..NN |-> [u \in 1..1 |-> [c |-> i, lvl |-> 1]]], !.def = [i \in 1..NN |-> 1]]
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
RealTime(x) == (now - eng[x].born) \div TPS

(* ---- the design ---- *)
Est(t) == IF ~t.in THEN <<0, 0>> ELSE <<t.boots, Max2(0, Min2(MaxInt, (now - t.born) \div TPS))>>
DHint(t, b, tm) == IF t.in /\ t.auth THEN t ELSE [in |-> TRUE, auth |-> FALSE, boots |-> Min2(b, MaxInt), born |-> now - tm * TPS]
DUpdate(t, b, tm) ==
    LET new == [in |-> TRUE, auth |-> TRUE, boots |-> Min2(b, MaxInt), born |-> now - tm * TPS] IN
    IF ~t.in \/ ~t.auth \/ b > t.boots THEN new
    ELSE IF b = t.boots /\ tm > (now - t.born) \div TPS THEN new ELSE t
DVerify(t, b, tm) == b = t.boots /\ ((now - t.born) \div TPS) - tm <= Window /\ t.boots < MaxInt
DKey(x) == reg[x][1]

Emit(e, h) == /\ bad' = bad \cup Violated(cs, e)
              /\ cs' = Step(cs, e)
              /\ hist' = IF Keep THEN Append(hist, h) ELSE hist
Quiet(h) == UNCHANGED <<bad, cs>> /\ hist' = IF Keep THEN Append(hist, h) ELSE hist
Count == n < N /\ n' = n + 1

(* ---- the environment ---- *)
Tick == /\ Count
        /\ \E d \in Steps : now' = now + d /\ Quiet([a |-> "tick", d |-> d])
        /\ UNCHANGED <<eng, sent, tk, reg, got>>
Reboot == /\ Count
          /\ \E x \in 1..NX : /\ eng[x].boots < MaxInt
                              /\ eng' = [eng EXCEPT ![x] = [boots |-> @.boots + 1, born |-> now]]
                              /\ Quiet([a |-> "reboot", x |-> x])
          /\ UNCHANGED <<now, sent, tk, reg, got>>
Send == /\ Count /\ Cardinality(sent) < NSent
        /\ \E x \in 1..NX : /\ sent' = sent \cup {[x |-> x, boots |-> eng[x].boots, time |-> RealTime(x), at |-> now]}
                            /\ sent' # sent
                            /\ Quiet([a |-> "send", x |-> x, boots |-> eng[x].boots, time |-> RealTime(x)])
        /\ UNCHANGED <<now, eng, tk, reg, got>>
Deliver ==
    /\ Count
    /\ \E m \in sent, tamper \in BOOLEAN :
         LET x == m.x
             c == Home(x)
             key == DKey(x)
             genuine == ~tamper
             accept == key # 0 /\ genuine /\ c = key
             t2 == IF accept THEN DUpdate(tk[x], m.boots, m.time) ELSE tk[x]
             ok == accept /\ DVerify(t2, m.boots, m.time)
             out == IF ~accept THEN "reject" ELSE IF ok THEN "ok" ELSE "NotInTimeWindow" IN
         /\ tk' = [tk EXCEPT ![x] = t2]
         /\ got' = [got EXCEPT ![x] = IF ok THEN @ + 1 ELSE @]
         /\ Emit([k |-> "in", ok |-> TRUE, well |-> "yes", engine |-> x, user |-> 1, lvl |-> 1, gen |-> IF genuine THEN <<c>> ELSE <<>>, dec |-> <<>>,
                  boots |-> m.boots, time |-> m.time, now |-> now, out |-> out, claims |-> 1, rengine |-> x, ruser |-> 1, same |-> TRUE],
                 [a |-> "dlv", x |-> x, boots |-> m.boots, time |-> m.time, tamper |-> tamper])
    /\ UNCHANGED <<now, eng, sent, reg>>
Forge ==
    /\ Count
    /\ \E x \in 1..NX, h \in Hints :
         /\ tk' = [tk EXCEPT ![x] = DHint(@, h[1], h[2])]
         /\ Emit([k |-> "in", ok |-> TRUE, well |-> "yes", engine |-> x, user |-> 1, lvl |-> 0, gen |-> <<>>, dec |-> <<>>,
                  boots |-> h[1], time |-> h[2], now |-> now, out |-> "ok", claims |-> 0, rengine |-> x, ruser |-> 1, same |-> TRUE],
                 [a |-> "forge", x |-> x, boots |-> h[1], time |-> h[2]])
    /\ UNCHANGED <<now, eng, sent, reg, got>>
Claim ==
    /\ Count
    /\ \E x \in 1..NX, i \in 1..NN :
         LET ok == reg[x][1] \in {0, i} IN
         /\ reg' = IF ok THEN [reg EXCEPT ![x] = <<i, @[2] + 1>>] ELSE reg
         /\ Emit([k |-> "assign", engine |-> x, ns |-> i, granted |-> ok], [a |-> "assign", x |-> x, ns |-> i])
    /\ UNCHANGED <<now, eng, sent, tk, got>>
Release ==
    /\ Count
    /\ \E x \in 1..NX, i \in 1..NN :
         /\ reg[x][1] # 0
         /\ reg' = IF reg[x][1] # i THEN reg ELSE [reg EXCEPT ![x] = IF @[2] = 1 THEN <<0, 0>> ELSE <<i, @[2] - 1>>]
         /\ Emit([k |-> "release", engine |-> x, ns |-> i, exc |-> ""], [a |-> "release", x |-> x, ns |-> i])
    /\ UNCHANGED <<now, eng, sent, tk, got>>
Next == Tick \/ Reboot \/ Send \/ Deliver \/ Forge \/ Claim \/ Release
Spec == Init /\ [][Next]_vars

(* ---- guarantees ---- *)
Contract == bad = {}
(* the design's estimate is the contract's *)
Refines == \A x \in 1..NX : Est(tk[x]) = <<BootsNow(cs.est[x]), TimeNow(cs.est[x], now)>> /\ tk[x].auth = cs.est[x].auth
Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
(* whatever the adversary replays or forges, an authenticated estimate is never ahead of the engine's own clock *)
NeverAhead == \A x \in 1..NX : tk[x].auth => Leq(Est(tk[x]), <<eng[x].boots, RealTime(x)>>)
(* and never runs backwards *)
Forward == [][\A x \in 1..NX : tk[x].auth => tk[x].auth' /\ Leq(Est(tk[x]), Est(tk[x])')]_vars
(* what an engine says now is accepted by whoever holds its user's key (unless its boots are exhausted) *)
FreshAccepted == \A x \in 1..NX : eng[x].boots < MaxInt => DVerify(DUpdate(tk[x], eng[x].boots, RealTime(x)), eng[x].boots, RealTime(x))
(* and what it said before is not, once the estimate has left it behind by the window, or by a reboot *)
ReplayRejected == \A m \in sent : LET t == tk[m.x] IN
                  t.auth /\ (m.boots < t.boots \/ (m.boots = t.boots /\ (now - t.born) \div TPS > m.time + Window) \/ m.boots = MaxInt)
                  => ~DVerify(DUpdate(t, m.boots, m.time), m.boots, m.time)
(* an engine's clock is believed only where a namespace that shares its key has claimed it *)
Strangers == \A x \in 1..NX : got[x] > 0 => tk[x].auth
Export == (Keep /\ n = N) => PrintT("SCN " \o ToJson(hist))
=============================================================================
