------------------------------ MODULE ReqModel ------------------------------
(***************************************************************************)
(* A design of the SNMPv1/SNMPv2c request machinery: what a manager does   *)
(* when the application calls it, when a timer fires, and when a datagram  *)
(* arrives.  Every step emits the events of module Requests; TLC checks    *)
(* that the design satisfies the contract (bad = {}) and that every        *)
(* waiting application is eventually answered, and its behaviours (hist)   *)
(* are replayed against the real library.                                  *)
(***************************************************************************)
EXTENDS Requests, TLC, Json
CONSTANTS H,        \* horizon: the clock stops here
          U,        \* ticks per step of the model's clock
          NR,       \* requests
          ND,       \* deliveries
          NM,       \* managers (manager m speaks version 1 + m % 2)
          Ps, Ts,   \* refresh periods and timeouts, in steps
          Kinds,    \* kinds of deliveries
          Keep      \* record hist?
VARIABLES now, rq, app, fresh, nd, hist, cs, bad
vars == <<now, rq, app, fresh, nd, hist, cs, bad>>
view == <<now, rq, app, fresh, nd, cs, bad>>

VerOf(m) == 1 + (m % 2)
Rec(h) == IF Keep THEN Append(hist, h) ELSE hist

(* run the contract over a list of events *)
RECURSIVE Mon(_, _, _)
Mon(c, b, evs) == IF evs = <<>> THEN <<c, b>> ELSE Mon(Step(c, Head(evs)), b \cup Violated(c, Head(evs)), Tail(evs))
Emit(evs) == LET x == Mon(cs, bad, evs) IN cs' = x[1] /\ bad' = x[2]

(* ---- events ---- *)
T(x) == x * U
EvReq(i, m, P, TO, auto) == [k |-> "req", r |-> i, m |-> m, ver |-> VerOf(m), comm |-> m, addr |-> m, kind |-> "get", a |-> 0, b |-> 0, vbs |-> <<i>>,
                             P |-> T(P), T |-> T(TO), auto |-> auto, now |-> T(now)]
EvReqEnd(i) == [k |-> "reqend", r |-> i, out |-> "ok", exc |-> "", now |-> T(now)]
EvSend(r) == [k |-> "send", ok |-> TRUE, ver |-> VerOf(r.m), comm |-> r.m, addr |-> r.m, pdu |-> "get", rid |-> <<0, r.id>>, raw |-> r.id, a |-> 0, b |-> 0,
              vbs |-> <<r.id>>, now |-> T(now)]
EvDlv(kind, r) == [k |-> "dlv", d |-> nd + 1, ok |-> kind # "junk", well |-> "yes", now |-> T(now),
                   ver |-> IF kind = "badver" THEN 3 - VerOf(r.m) ELSE VerOf(r.m),
                   comm |-> IF kind = "badcomm" THEN 99 ELSE r.m,
                   pdu |-> IF kind = "badpdu" THEN "get" ELSE "response",
                   rid |-> IF kind = "badid" THEN <<1, r.id>> ELSE <<0, r.id>>,
                   a |-> IF kind = "err" THEN 5 ELSE 0, b |-> IF kind = "err" THEN 1 ELSE 0, vbs |-> <<100 + nd>>]
EvDlvEnd == [k |-> "dlvend", d |-> nd + 1, exc |-> "", now |-> T(now)]
EvWait(i) == [k |-> "wait", r |-> i, now |-> T(now)]
EvEnd(r) == LET a == r.ans IN
            [k |-> "waitend", r |-> r.id, now |-> T(now), exc |-> "", binding |-> 0,
             out |-> IF a = <<>> THEN "timeout" ELSE IF a[1] = 0 THEN "ok" ELSE "err",
             est |-> IF a = <<>> THEN 0 ELSE a[1], vbs |-> IF a = <<>> THEN <<>> ELSE a[2],
             cause |-> "vb", cvb |-> r.id]
EvAdv == [k |-> "adv", from |-> T(now), to |-> T(now + 1), now |-> T(now)]
EvDrop(i) == [k |-> "drop", r |-> i, dead |-> TRUE, now |-> T(now)]

(* ---- the design ----
   A manager keeps its live requests with the time each is next due; waiting on it resends every request that is due,
   and moves the due time forward by whole periods, past the present. *)
Due(r) == r.st = "live" /\ r.ans = <<>> /\ r.next <= now /\ now < r.exp
Serve(r) == [r EXCEPT !.next = @ + ((now - @) \div r.P + 1) * r.P]
RECURSIVE Sends(_, _, _)
Sends(q, m, i) == IF i > Len(q) THEN <<>> ELSE (IF q[i].m = m /\ Due(q[i]) THEN <<EvSend(q[i])>> ELSE <<>>) \o Sends(q, m, i + 1)
Refreshed(q, m) == [i \in DOMAIN q |-> IF q[i].m = m /\ Due(q[i]) THEN Serve(q[i]) ELSE q[i]]
Finish(q, i) == [q EXCEPT ![i].st = "done"]

(* the application thread inside wait(): returns, or resends what is due and sleeps *)
Turn(q, i, evs) ==
    IF q[i].ans # <<>> \/ q[i].exp <= now
    THEN /\ rq' = Finish(q, i) /\ app' = 0 /\ Emit(evs \o <<EvEnd(q[i])>>)
    ELSE /\ rq' = Refreshed(q, q[i].m) /\ app' = i /\ Emit(evs \o Sends(q, q[i].m, 1))

Init == /\ now = 0 /\ rq = <<>> /\ app = 0 /\ fresh = FALSE /\ nd = 0 /\ hist = <<>>
        /\ cs = InitSt([strict |-> TRUE, conc |-> FALSE, served |-> FALSE]) /\ bad = {}

Call(m, P, TO, auto) ==
    /\ app = 0 /\ ~fresh /\ Len(rq) < NR
    /\ LET i == Len(rq) + 1
           r == [id |-> i, m |-> m, P |-> P, exp |-> now + TO, next |-> now + P, st |-> "live", ans |-> <<>>]
           q == Append(rq, r)
           evs == <<EvReq(i, m, P, TO, auto), EvSend(r)>> IN
       IF auto THEN Turn(q, i, evs)
       ELSE rq' = q /\ app' = 0 /\ Emit(evs \o <<EvReqEnd(i)>>)
    /\ hist' = Rec([a |-> "call", t |-> now, m |-> m, P |-> P, T |-> TO, auto |-> auto])
    /\ UNCHANGED <<now, fresh, nd>>
WaitFor(i) ==
    /\ app = 0 /\ ~fresh /\ rq[i].st = "live"
    /\ Turn(rq, i, <<EvWait(i)>>)
    /\ hist' = Rec([a |-> "wait", t |-> now, r |-> i])
    /\ UNCHANGED <<now, fresh, nd>>
Drop(i) ==
    /\ app = 0 /\ ~fresh /\ rq[i].st = "live"
    /\ rq' = Finish(rq, i) /\ Emit(<<EvDrop(i)>>)
    /\ hist' = Rec([a |-> "drop", t |-> now, r |-> i])
    /\ UNCHANGED <<now, app, fresh, nd>>
(* a datagram arrives: before (fresh) or after the timers of this instant *)
Deliver(kind, i) ==
    /\ nd < ND
    /\ LET r == rq[i]
           good == kind \in {"ok", "err"} /\ r.st = "live"
           q == IF good THEN [rq EXCEPT ![i].ans = <<IF kind = "err" THEN 5 ELSE 0, <<100 + nd>>>>] ELSE rq
           evs == <<EvDlv(kind, r), EvDlvEnd>> IN
       IF app = 0 \/ fresh THEN rq' = q /\ app' = app /\ Emit(evs)
       ELSE IF app = i /\ good THEN Turn(q, i, evs)
       ELSE rq' = q /\ app' = app /\ Emit(evs)
    /\ nd' = nd + 1
    /\ hist' = Rec([a |-> "dlv", t |-> now, early |-> fresh, idle |-> app = 0, r |-> i, kind |-> kind])
    /\ UNCHANGED <<now, fresh>>
Tick == /\ ~fresh /\ now < H
        /\ now' = now + 1 /\ fresh' = (app # 0)
        /\ IF app # 0 THEN Emit(<<EvAdv>>) ELSE UNCHANGED <<cs, bad>>
        /\ UNCHANGED <<rq, app, nd, hist>>
Timer == /\ fresh /\ fresh' = FALSE
         /\ Turn(rq, app, <<>>)
         /\ UNCHANGED <<now, nd, hist>>

Next == \/ \E m \in 1..NM, P \in Ps, TO \in Ts, auto \in BOOLEAN : Call(m, P, TO, auto)
        \/ \E i \in 1..Len(rq) : WaitFor(i) \/ Drop(i) \/ \E kd \in Kinds : Deliver(kd, i)
        \/ Tick \/ Timer
Spec == Init /\ [][Next]_vars /\ WF_vars(Tick) /\ WF_vars(Timer)

(* ---- what is checked of the design ---- *)
Contract == bad = {}
Ends == now = H /\ ~fresh
Answers == \A i \in DOMAIN rq : (app = i) ~> (app # i \/ now = H)
Export == (Ends /\ Keep) => PrintT("SCN " \o ToJson(hist))
=============================================================================
