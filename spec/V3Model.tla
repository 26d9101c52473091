------------------------------ MODULE V3Model ------------------------------
(***************************************************************************)
(* A design of the SNMPv3 manager: discovery state, the queue of requests  *)
(* held back, retransmission timers, reaction to responses and reports,    *)
(* and the remote engine's clock as the user-based security model keeps    *)
(* it; around it an agent that may reboot, and a network that delivers     *)
(* genuine answers to any message, late or repeatedly, and forgeries.      *)
(* Every step emits the events of module V3; TLC checks that the design    *)
(* satisfies that contract, that no report starts a loop, and that every   *)
(* wait ends; its behaviours (hist) are replayed against the real library. *)
(***************************************************************************)
EXTENDS V3, TLC, Json
CONSTANTS H, U,      \* horizon in steps, ticks per step
          NR, ND,    \* requests, deliveries
          Eng0,      \* engine the manager is given (0: none)
          Ps, Ts, Lvls, Kinds,
          NB,        \* reboots of the agent
          Keep
VARIABLES now, s, app, fresh, nd, ag, hist
vars == <<now, s, app, fresh, nd, ag, hist>>
view == <<now, s, app, fresh, nd, ag>>
Rec(h) == IF Keep THEN Append(hist, h) ELSE hist
T(x) == x * U

Em(x, e) == [x EXCEPT !.bad = @ \cup Violated(x.cs, e), !.cs = Step(x.cs, e)]
RECURSIVE Fold(_, _, _)
Fold(Op(_, _), x, q) == IF q = <<>> THEN x ELSE Fold(Op, Op(x, Head(q)), Tail(q))

(* ---- events ---- *)
User(m) == IF m.probe THEN 0 ELSE 1
EvSend(x, n) == LET m == x.msgs[n] IN
    [k |-> "send", now |-> T(now), ok |-> TRUE, ver |-> 3, addr |-> 1, msgid |-> <<0, n>>, model |-> 3, readable |-> TRUE, engine |-> m.eng, user |-> User(m), lvl |-> m.lvl,
     genuine |-> m.lvl > 0, ce |-> m.eng, cn |-> 0, reportable |-> TRUE, pdu |-> "get", a |-> 0, b |-> 0, boots |-> m.boots, time |-> m.time,
     vbs |-> IF m.probe THEN <<>> ELSE <<m.own>>, rid |-> IF m.probe THEN <<0, 0>> ELSE <<0, m.own>>]
EvDlv(n, m, p) ==
    [k |-> "dlv", now |-> T(now), d |-> nd + 1, ok |-> TRUE, ver |-> 3, well |-> "yes", model |-> 3, readable |-> TRUE, msgid |-> <<0, n>>, user |-> User(m),
     lvl |-> p.lvl, genuine |-> p.lvl > 0, engine |-> p.eng, ce |-> p.eng, cn |-> 0, boots |-> p.boots, time |-> p.time, pdu |-> p.pdu,
     rid |-> IF m.probe THEN <<0, 0>> ELSE <<0, m.own>>, a |-> p.est, b |-> p.est, vbs |-> <<100 + nd>>, roid |-> IF p.pdu = "report" THEN Stats \o <<p.ctr, 0>> ELSE <<1>>]
EvEnd(r) ==
    [k |-> "waitend", r |-> r.id, now |-> T(now), cause |-> "vb", cvb |-> r.id,
     out |-> IF r.resp # <<>> THEN (IF r.resp[1] = 0 THEN "ok" ELSE "err") ELSE IF r.exc # <<>> THEN "report" ELSE "timeout",
     exc |-> IF r.resp = <<>> /\ r.exc # <<>> THEN r.exc[1] ELSE "", binding |-> IF r.resp = <<>> /\ r.exc # <<>> THEN r.exc[2] ELSE 0,
     est |-> IF r.resp = <<>> THEN 0 ELSE r.resp[1], vbs |-> IF r.resp = <<>> THEN <<>> ELSE r.resp[2]]

(* ---- sending ---- *)
Idle(r) == r.st # "live" \/ r.done \/ r.exp <= now
Xmit(x, i, eng) ==
    LET r == x.rq[i]
        e == IF eng # -1 THEN eng ELSE r.eng
        m == IF e = -1 THEN [own |-> i, eng |-> 0, lvl |-> 0, gen |-> r.gen, probe |-> TRUE, boots |-> 0, time |-> 0]
             ELSE [own |-> i, eng |-> e, lvl |-> r.lvl, gen |-> r.gen, probe |-> FALSE,
                   boots |-> IF r.lvl = 0 THEN 0 ELSE BootsNow(x.est[e]), time |-> IF r.lvl = 0 THEN 0 ELSE TimeNow(x.est[e], T(now))]
        y == [x EXCEPT !.msgs = Append(@, m), !.rq[i].eng = e, !.rq[i].sent = TRUE] IN
    Em(y, EvSend(y, Len(y.msgs)))
Send(x, i, eng) == Xmit([x EXCEPT !.rq[i].next = now + x.rq[i].P], i, eng)
Flush(x, eng) == LET Op(y, i) == IF Idle(y.rq[i]) THEN y ELSE Send(y, i, eng) IN Fold(Op, [x EXCEPT !.q = <<>>], x.q)

(* ---- discovery ---- *)
Opens(ms, lvl) == ms \in {"new", "unsync", "trust", "auth"} \/ (ms = "syncing" /\ lvl = 0)
Opened(ms) == CASE ms = "new" -> "wait" [] ms = "unsync" -> "syncing" [] OTHER -> ms
Quiet(ms) == CASE ms = "wait" -> "new" [] ms = "syncing" -> "unsync" [] OTHER -> ms
Submit(x, i) == IF Opens(x.ms, x.rq[i].lvl) THEN [Send(x, i, x.eng) EXCEPT !.ms = Opened(@)] ELSE [x EXCEPT !.q = Append(@, i)]
(* nothing transmitted is pending any more: the queue gets another chance *)
Poke(x) == LET Op(y, i) == IF Idle(y.rq[i]) THEN y ELSE Submit(y, i) IN Fold(Op, [x EXCEPT !.ms = Quiet(@), !.q = <<>>], x.q)
Refresh(x) ==
    LET Due(y, i) == IF y.rq[i].sent /\ ~Idle(y.rq[i]) /\ y.rq[i].next <= now
                     THEN Xmit([y EXCEPT !.rq[i].next = @ + ((now - @) \div y.rq[i].P + 1) * y.rq[i].P], i, -1) ELSE y
        y == Fold(Due, x, [i \in DOMAIN x.rq |-> i]) IN
    IF \A i \in DOMAIN y.rq : y.rq[i].sent => Idle(y.rq[i]) THEN Poke(y) ELSE y
OnReport(x, i, eng) ==
    LET all == x.ms = "wait" \/ (x.ms = "syncing" /\ x.eng = eng)
        y == IF Idle(x.rq[i]) THEN x ELSE Send(x, i, eng)
        z == [y EXCEPT !.ms = IF ~all THEN @ ELSE IF @ = "wait" THEN "trust" ELSE "auth"] IN
    IF all THEN Flush(z, eng) ELSE z
OnResponse(x, eng, auth) ==
    LET ok == CASE x.ms = "trust" -> TRUE [] x.ms = "syncing" -> auth \/ x.eng = eng [] x.ms = "auth" -> auth [] OTHER -> FALSE
        y == [x EXCEPT !.eng = eng, !.ms = IF @ = "trust" /\ ~auth THEN "trust" ELSE "auth"] IN
    IF ok THEN Flush(y, eng) ELSE x

(* ---- the application ---- *)
Turn(x, i) ==
    IF x.rq[i].done \/ x.rq[i].exp <= now
    THEN /\ s' = [Em(x, EvEnd(x.rq[i])) EXCEPT !.rq[i].st = "done"] /\ app' = 0
    ELSE /\ s' = Refresh(x) /\ app' = i

Init == /\ now = 0 /\ app = 0 /\ fresh = FALSE /\ nd = 0 /\ hist = <<>> /\ ag = [boots |-> 3, base |-> 0, nb |-> 0]
        /\ s = Em([rq |-> <<>>, q |-> <<>>, msgs |-> <<>>, est |-> [e \in 0..2 |-> NoEst], eng |-> IF Eng0 = 0 THEN -1 ELSE Eng0,
                   ms |-> IF Eng0 = 0 THEN "new" ELSE "unsync", bad |-> {},
                   cs |-> InitSt([strict |-> TRUE, conc |-> FALSE, served |-> FALSE, caps |-> <<1>>, ne |-> 2])],
                  [k |-> "mgr", m |-> 1, eng0 |-> Eng0, addr |-> 1, ns |-> "", now |-> 0])

Call(P, TO, lvl, auto) ==
    /\ app = 0 /\ ~fresh /\ Len(s.rq) < NR
    /\ LET i == Len(s.rq) + 1
           r == [id |-> i, lvl |-> lvl, P |-> P, exp |-> now + TO, next |-> 0, st |-> "live", done |-> FALSE, resp |-> <<>>, exc |-> <<>>, eng |-> -1, sent |-> FALSE, gen |-> 0]
           x == Em([s EXCEPT !.rq = Append(@, r)],
                   [k |-> "req", r |-> i, m |-> 1, ver |-> 3, kind |-> "get", a |-> 0, b |-> 0, vbs |-> <<i>>, P |-> T(P), T |-> T(TO), auto |-> auto,
                    lvl |-> lvl, user |-> 1, addr |-> 1, now |-> T(now)])
           y == Submit(x, i) IN
       IF auto THEN Turn(y, i)
       ELSE s' = Em(y, [k |-> "reqend", r |-> i, out |-> "ok", exc |-> "", now |-> T(now)]) /\ app' = 0
    /\ hist' = Rec([a |-> "call", t |-> now, P |-> P, T |-> TO, lvl |-> lvl, auto |-> auto])
    /\ UNCHANGED <<now, fresh, nd, ag>>
WaitFor(i) ==
    /\ app = 0 /\ ~fresh /\ s.rq[i].st = "live"
    /\ Turn(Em(s, [k |-> "wait", r |-> i, now |-> T(now)]), i)
    /\ hist' = Rec([a |-> "wait", t |-> now, r |-> i])
    /\ UNCHANGED <<now, fresh, nd, ag>>
Drop(i) ==
    /\ app = 0 /\ ~fresh /\ s.rq[i].st = "live"
    /\ s' = [Em(s, [k |-> "drop", r |-> i, dead |-> TRUE, now |-> T(now)]) EXCEPT !.rq[i].st = "done"]
    /\ hist' = Rec([a |-> "drop", t |-> now, r |-> i])
    /\ UNCHANGED <<now, app, fresh, nd, ag>>

(* ---- what arrives in answer to message n ---- *)
AgTime == (T(now) \div TPS) + ag.base
Msg(p, lvl, eng, ctr, est, boots) == [pdu |-> p, lvl |-> lvl, eng |-> eng, ctr |-> ctr, est |-> est, boots |-> boots, time |-> AgTime]
Made(n, kind) ==
    LET m == s.msgs[n]
        R(p, lvl, eng, ctr, est) == {Msg(p, lvl, eng, ctr, est, ag.boots)} IN
    CASE kind \in {"answer", "answer2", "answer3"} ->   \* (the copies only make it more likely in simulation)
                             IF m.eng # 1 THEN R("report", 0, 1, 4, 0)
                            ELSE IF m.lvl = 1 /\ m.boots # ag.boots THEN R("report", 1, 1, 2, 0)
                            ELSE R("response", m.lvl, 1, 0, 0)
      [] kind = "err"    -> IF m.probe THEN {} ELSE R("response", m.lvl, m.eng, 0, 1)
      [] kind = "forge"  -> R("response", 0, m.eng, 0, 0)
      [] kind = "stale"  -> IF m.lvl = 1 /\ ag.nb > 0 THEN {Msg("response", 1, m.eng, 0, 0, ag.boots - 1)} ELSE {}
      [] kind = "window" -> IF m.lvl = 1 THEN R("report", 1, m.eng, 2, 0) ELSE {}
      [] kind = "moved"  -> IF m.probe THEN {} ELSE R("report", 0, 2, 4, 0)
      [] kind = "userA"  -> IF m.lvl = 1 THEN R("report", 1, m.eng, 3, 0) ELSE {}
      [] kind = "userU"  -> R("report", 0, m.eng, 3, 0)
(* what the library makes of it *)
Claimed(x, e) == x.eng = e \/ \E i \in DOMAIN x.rq : x.rq[i].st = "live" /\ x.rq[i].eng = e
Take1(x, n, p) ==
    LET m == x.msgs[n]
        i == m.own
        r == x.rq[i]
        known == p.lvl = 0 \/ Claimed(x, p.eng)
        est == IF ~known THEN x.est[p.eng] ELSE IF p.lvl = 0 THEN Hint(x.est[p.eng], p.boots, p.time, T(now)) ELSE Learn(x.est[p.eng], p.boots, p.time, T(now))
        ok == known /\ (p.lvl = 0 \/ Timely(est, p.boots, p.time, T(now)))
        y == [x EXCEPT !.est[p.eng] = est] IN
    IF ~ok \/ r.st # "live" THEN y
    ELSE IF p.pdu = "response"
    THEN IF m.probe \/ p.lvl < m.lvl \/ p.eng # m.eng THEN y
         ELSE LET z == OnResponse(y, p.eng, p.lvl > 0) IN
              IF r.done THEN z ELSE [z EXCEPT !.rq[i].done = TRUE, !.rq[i].resp = <<p.est, <<100 + nd>>>>]
    ELSE IF p.ctr = 4 THEN (IF p.eng = r.eng THEN y ELSE OnReport(y, i, p.eng))
    ELSE IF p.ctr = 2 THEN (IF m.gen # r.gen THEN y ELSE LET z == OnReport(y, i, p.eng) IN [z EXCEPT !.rq[i].gen = @ + 1])
    ELSE LET exc == <<"UnknownUserNameReport", 100 + nd>> IN
         IF p.lvl > 0 THEN (IF r.done THEN y ELSE [y EXCEPT !.rq[i].exc = exc, !.rq[i].done = TRUE])
         ELSE IF r.exc = <<>> THEN [y EXCEPT !.rq[i].exc = exc] ELSE y

Deliver(n, kind) ==
    /\ nd < ND
    /\ \E p \in Made(n, kind) :
         LET x == Em(Take1(Em(s, EvDlv(n, s.msgs[n], p)), n, p), [k |-> "dlvend", d |-> nd + 1, exc |-> "", now |-> T(now)]) IN
         IF app # 0 /\ ~fresh /\ x.rq[app].done THEN Turn(x, app) ELSE s' = x /\ app' = app
    /\ nd' = nd + 1
    /\ hist' = Rec([a |-> "dlv", t |-> now, early |-> fresh, idle |-> app = 0, n |-> n, kind |-> kind])
    /\ UNCHANGED <<now, fresh, ag>>
Reboot == /\ ag.nb < NB /\ app = 0 /\ ~fresh /\ Len(s.msgs) > 0
          /\ ag' = [boots |-> ag.boots + 1, base |-> -(T(now) \div TPS), nb |-> ag.nb + 1]
          /\ hist' = Rec([a |-> "reboot", t |-> now])
          /\ UNCHANGED <<now, s, app, fresh, nd>>
Tick == /\ ~fresh /\ now < H
        /\ now' = now + 1 /\ fresh' = (app # 0)
        /\ s' = IF app # 0 THEN Em(s, [k |-> "adv", from |-> T(now), to |-> T(now + 1), now |-> T(now)]) ELSE s
        /\ UNCHANGED <<app, nd, ag, hist>>
Timer == /\ fresh /\ fresh' = FALSE /\ Turn(s, app) /\ UNCHANGED <<now, nd, ag, hist>>
Next == \/ \E P \in Ps, TO \in Ts, lvl \in Lvls, auto \in BOOLEAN : Call(P, TO, lvl, auto)
        \/ \E i \in DOMAIN s.rq : WaitFor(i) \/ Drop(i)
        \/ \E n \in DOMAIN s.msgs, kd \in Kinds : Deliver(n, kd)
        \/ Reboot \/ Tick \/ Timer
Spec == Init /\ [][Next]_vars /\ WF_vars(Tick) /\ WF_vars(Timer)

(* ---- what is checked of the design ---- *)
Contract == s.bad = {}
(* transmissions are paid for by calls, periods and deliveries *)
NoLoop == Len(s.msgs) <= 2 * Len(s.rq) + nd + Len(s.rq) * (H + 1)
(* no request is left in the queue once the remote engine is known *)
NoneHeld == s.ms \in {"trust", "auth"} => s.q = <<>>
Ends == now = H /\ ~fresh
Answers == \A i \in 1..NR : (app = i) ~> (app # i \/ now = H)
Export == (Ends /\ Keep) => PrintT("SCN " \o ToJson(hist))
=============================================================================
