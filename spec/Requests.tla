------------------------------ MODULE Requests ------------------------------
(***************************************************************************)
(* What an application may observe of SNMPv1/SNMPv2c requests: a contract  *)
(* over the calls it makes, the datagrams the library sends, the datagrams *)
(* it is handed, and the passing of time.  Violated(st, e) is the set of   *)
(* clauses <<property, clause>> that event e breaks in state st; Step is   *)
(* total, so that a checker interested in one property can look past the   *)
(* violations of another.                                                  *)
(*                                                                         *)
(* Identifiers are pairs <<upper half, lower half>> of 16 bits, the upper  *)
(* half signed.  Times are ticks.  Octet strings are interned numbers.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

InitSt(t) == [strict |-> t.strict, conc |-> t.conc, served |-> t.served, req |-> <<>>, dead |-> FALSE]

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Last(q) == q[Len(q)]
Ids(st) == 1..Len(st.req)

(* ---- identifiers: 32-bit signed and not zero ---- *)
IdOK(i) == i[1] \in -32768..32767 /\ i # <<0, 0>>

(* ---- one request ----
   st      "new" issued, nothing sent; "live"; "done" result returned or handle dropped
   t0      time of the first transmission, slot the number of the latest refresh period served
   ans     matching responses: [d, t (end of processing or -1), sure, est, eidx, vbs]            *)
NewReq(e) == [m |-> e.m, ver |-> e.ver, comm |-> e.comm, addr |-> e.addr, kind |-> e.kind, a |-> e.a, b |-> e.b, vbs |-> e.vbs,
              P |-> e.P, exp |-> e.now + e.T, begun |-> e.now, st |-> "new", t0 |-> -1, last |-> -1, extra |-> 0, slot |-> 0, rid |-> <<0, 0>>, raw |-> 0, ans |-> <<>>,
              waiting |-> e.auto, wfrom |-> e.now, returned |-> e.auto, auto |-> e.auto, intr |-> FALSE]

SureAns(r)  == {i \in 1..Len(r.ans) : r.ans[i].sure}
Answered(r) == SureAns(r) # {}
Touched(r)  == Len(r.ans) > 0
(* a response whose processing was over before the timeout must be the result *)
MustAns(r)  == {i \in SureAns(r) : r.ans[i].end >= 0 /\ r.ans[i].end < r.exp}

SlotOf(r, t) == (t - r.t0) \div r.P
(* the latest refresh time that was due by t and before the timeout *)
DueSlot(r, t) == LET lim == (r.exp - 1 - r.t0) \div r.P IN IF SlotOf(r, t) < lim THEN SlotOf(r, t) ELSE lim

Live(st)   == {i \in Ids(st) : st.req[i].st = "live"}
Open(st)   == {i \in Ids(st) : st.req[i].st # "done"}

(* ---- transmissions ---- *)
SameAsked(r, e) == r.ver = e.ver /\ r.kind = e.pdu /\ r.vbs = e.vbs /\ r.a = e.a /\ r.b = e.b
Fresh(st, e)  == {i \in Ids(st) : st.req[i].st = "new" /\ SameAsked(st.req[i], e)}
Again(st, e)  == {i \in Live(st) : st.req[i].raw = e.raw}
ById(st, e)   == {i \in Live(st) : st.req[i].ver = e.ver /\ st.req[i].rid = e.rid}
Former(st, e) == {i \in Ids(st) : st.req[i].st = "done" /\ st.req[i].raw = e.raw}

FirstBad(st, e, i) ==
    LET r == st.req[i] IN
    (IF ~IdOK(e.rid) THEN {<<"C08", "id-range">>} ELSE {})
    \cup (IF \E j \in Live(st) : st.req[j].ver = e.ver /\ st.req[j].rid = e.rid THEN {<<"C08", "id-collision">>} ELSE {})
    \cup (IF e.comm # r.comm THEN {<<"C24", "community">>} ELSE {})
    \cup (IF e.addr # r.addr THEN {<<"C24", "address">>, <<"C09", "address">>} ELSE {})

AgainBad(st, e, i) ==
    LET r == st.req[i] IN
    (IF e.addr # r.addr THEN {<<"C09", "address">>} ELSE {})
    \cup (IF ~st.conc /\ Answered(r) THEN {<<"C09", "after-answer">>} ELSE {})
    \cup (IF ~st.conc /\ st.strict /\ e.now >= r.exp THEN {<<"C09", "after-timeout">>} ELSE {})
    \cup (IF ~st.conc /\ st.strict /\ SlotOf(r, e.now) <= r.slot THEN {<<"C09", "too-often">>} ELSE {})

SendBad(st, e) ==
    IF ~e.ok THEN {<<"C08", "malformed">>, <<"C09", "malformed">>}
    ELSE IF e.ver = 3 THEN {}
    ELSE IF Fresh(st, e) # {} THEN FirstBad(st, e, Min(Fresh(st, e)))
    ELSE IF Again(st, e) # {} THEN AgainBad(st, e, Min(Again(st, e)))
    \* (another thread may have been about to resend the request when it ended)
    ELSE IF Former(st, e) # {} THEN IF st.conc /\ \A i \in Former(st, e) : st.req[i].extra = 0 THEN {} ELSE {<<"C11", "sent-after-end">>, <<"C09", "after-answer">>}
    ELSE IF ById(st, e) # {} THEN {<<"C08", "retransmission-differs">>, <<"C09", "retransmission-differs">>}
    ELSE {<<"C08", "unasked">>, <<"C09", "unasked">>, <<"C24", "content">>}

SendStep(st, e) ==
    IF ~e.ok \/ e.ver = 3 THEN st
    ELSE IF Fresh(st, e) # {}
    THEN LET i == Min(Fresh(st, e)) IN
         [st EXCEPT !.req[i].st = "live", !.req[i].t0 = e.now, !.req[i].last = e.now, !.req[i].rid = e.rid, !.req[i].raw = e.raw]
    ELSE IF Again(st, e) # {}
    THEN LET i == Min(Again(st, e)) IN [st EXCEPT !.req[i].slot = SlotOf(st.req[i], e.now), !.req[i].last = e.now]
    ELSE IF Former(st, e) # {} THEN [st EXCEPT !.req[Min(Former(st, e))].extra = @ + 1]
    ELSE st

(* ---- time passes while some thread sleeps in the library ---- *)
Waiters(st) == {i \in Ids(st) : st.req[i].waiting}
AdvBad(st, e) ==
    IF ~st.strict \/ st.conc THEN {} ELSE
    UNION {LET w == st.req[i]
               mine == {j \in Live(st) : st.req[j].m = w.m /\ ~Touched(st.req[j]) /\ e.from < st.req[j].exp} IN
           (IF \E j \in mine : st.req[j].slot < DueSlot(st.req[j], e.from) THEN {<<"C09", "missed">>} ELSE {})
           \cup (IF \E j \in mine : LET r == st.req[j]
                                        next == r.t0 + (DueSlot(r, e.from) + 1) * r.P
                                    IN next < r.exp /\ e.to > next
                 THEN {<<"C09", "late">>} ELSE {})
           \cup (IF e.to > w.exp THEN {<<"C10", "overrun">>} ELSE {})
           \cup (IF Answered(w) \/ w.intr THEN {<<"C10", "not-prompt">>} ELSE {})
           : i \in Waiters(st)}

(* ---- datagrams handed to the library ---- *)
Matches(st, e) == IF e.pdu # "response" THEN {}
                  ELSE {i \in Live(st) : LET r == st.req[i] IN r.ver = e.ver /\ r.rid = e.rid /\ r.comm = e.comm}
Wellformed(e) == e.well = "yes" \/ e.well = "maybe"
DlvStep(st, e) ==
    IF e.ok /\ e.ver # 3 /\ Wellformed(e) /\ Matches(st, e) # {}
    THEN LET i == Min(Matches(st, e)) IN
         [st EXCEPT !.req[i].ans = Append(@, [d |-> e.d, end |-> -1, sure |-> e.well = "yes", est |-> e.a, eidx |-> e.b, vbs |-> e.vbs])]
    ELSE st
DlvEndStep(st, e) ==
    [st EXCEPT !.req = [i \in DOMAIN @ |-> [@[i] EXCEPT !.ans = [n \in DOMAIN @ |-> IF @[n].d = e.d THEN [@[n] EXCEPT !.end = e.now] ELSE @[n]]]]]
DlvEndBad(st, e) == IF e.exc # "" THEN {<<"C25", "listener-exception">>} ELSE {}

(* ---- results ---- *)
CauseOK(r, a, e) == IF a.eidx = 0 THEN e.cause = "pdu"
                    ELSE IF a.eidx \in 1..Len(r.vbs) THEN e.cause = "vb" /\ e.cvb = r.vbs[a.eidx]
                    ELSE TRUE
ResultOK(r, e) == \/ e.out = "ok" /\ \E n \in 1..Len(r.ans) : r.ans[n].est = 0 /\ r.ans[n].vbs = e.vbs
                  \/ e.out = "err" /\ \E n \in 1..Len(r.ans) : r.ans[n].est = e.est /\ e.est # 0 /\ CauseOK(r, r.ans[n], e)
(* among preempted threads, but while the clock stood still whenever one of them could run: every refresh was due, and every answer came *)
Calm(st, e)   == st.conc /\ e.calm /\ e.out = "timeout"
CalmBad(st, r, e) ==
    IF ~Calm(st, e) THEN {}
    ELSE (IF ~Touched(r) /\ r.last >= 0 /\ r.last + r.P < r.exp /\ r.wfrom < r.exp THEN {<<"C09", "starved">>, <<"C12", "starved">>} ELSE {})
         \cup (IF st.served THEN {<<"C12", "unserved">>, <<"C10", "unserved">>} ELSE {})
Both(p) == {<<p, "result">>, <<"C12", "result">>}
WaitEndBad(st, e) ==
    LET r == st.req[e.r] IN
    (CASE e.out \in {"ok", "err"} -> IF ResultOK(r, e) THEN {} ELSE Both("C07")
      [] e.out = "timeout" -> (IF e.now < r.exp THEN {<<"C10", "early-timeout">>, <<"C12", "early-timeout">>} ELSE {})
                              \cup (IF MustAns(r) # {} THEN {<<"C10", "lost">>, <<"C12", "lost">>, <<"C25", "lost">>, <<"C07", "lost">>} ELSE {})
      [] e.out = "intr" /\ r.intr -> {}
      [] OTHER -> {<<"C10", "exception">>, <<"C12", "exception">>, <<"C25", "exception">>}
                  \cup (IF e.exc = "CacheError" THEN {<<"C11", "identifiers-used-up">>, <<"C08", "identifiers-used-up">>} ELSE {}))
    \cup (IF st.strict /\ ~st.conc /\ e.now > r.exp /\ e.now > r.wfrom THEN {<<"C10", "overrun">>} ELSE {})
    \cup CalmBad(st, r, e)
(* an interrupted wait leaves the request as it was, if the application has a handle of it *)
WaitEndStep(st, e) == [st EXCEPT !.req[e.r].waiting = FALSE, !.req[e.r].intr = FALSE, !.req[e.r].returned = TRUE,
                                 !.req[e.r].st = IF e.out = "intr" /\ ~st.req[e.r].auto THEN @ ELSE "done"]

ReqEndBad(st, e) == IF e.out # "ok"
                    THEN {<<"C10", "call-failed">>, <<"C12", "call-failed">>, <<"C25", "call-failed">>}
                         \cup (IF e.exc = "CacheError" THEN {<<"C11", "identifiers-used-up">>, <<"C08", "identifiers-used-up">>} ELSE {})
                    ELSE IF st.req[e.r].st = "new" THEN {<<"C09", "never-sent">>} ELSE {}
ReqEndStep(st, e) == IF e.out # "ok" THEN [st EXCEPT !.req[e.r].st = "done"] ELSE [st EXCEPT !.req[e.r].returned = TRUE]

Violated(st, e) ==
    CASE e.k = "send"    -> SendBad(st, e)
      [] e.k = "adv"     -> AdvBad(st, e)
      [] e.k = "dlvend"  -> DlvEndBad(st, e)
      [] e.k = "reqend"  -> ReqEndBad(st, e)
      [] e.k = "waitend" -> WaitEndBad(st, e)
      [] e.k \in {"drop", "gone"} -> IF e.dead THEN {} ELSE {<<"C11", "kept-alive">>}
      [] e.k = "hang"    -> {<<"C10", "hang">>, <<"C12", "hang">>, <<"C25", "hang">>}
      [] OTHER           -> {}

Step(st, e) ==
    CASE e.k = "req"     -> [st EXCEPT !.req = Append(@, NewReq(e))]
      [] e.k = "reqend"  -> ReqEndStep(st, e)
      [] e.k = "send"    -> SendStep(st, e)
      [] e.k = "dlv"     -> DlvStep(st, e)
      [] e.k = "dlvend"  -> DlvEndStep(st, e)
      [] e.k = "wait"    -> [st EXCEPT !.req[e.r].waiting = TRUE, !.req[e.r].wfrom = e.now]
      [] e.k = "waitend" -> WaitEndStep(st, e)
      [] e.k = "drop"    -> [st EXCEPT !.req[e.r].st = "done"]
      \* the application is interrupted while it waits
      [] e.k = "intr"    -> [st EXCEPT !.req = [i \in DOMAIN @ |-> [@[i] EXCEPT !.intr = @ \/ st.req[i].waiting]]]
      [] OTHER           -> st
=============================================================================
