---------------------------------- MODULE V3 ----------------------------------
(***************************************************************************)
(* What an application, an agent and an attacker may observe of the SNMPv3 *)
(* (USM) manager: discovery, transmission at the requested security level, *)
(* acceptance of responses and reports, recovery of time synchronization,  *)
(* retransmission, results, and the claims it keeps on engine IDs.         *)
(* As in Requests: Violated(st, e) names the clauses <<property, clause>>  *)
(* that event e breaks, and Step is total.                                 *)
(*                                                                         *)
(* Octet strings are interned; engine 0, user 0 and context 0 are the      *)
(* empty ones.  Security levels: 0 noAuthNoPriv, 1 authNoPriv, 2 authPriv, *)
(* 3 the invalid combination of privacy without authentication.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, UsmTime

NoDl == [on |-> FALSE, d |-> 0, m |-> 0, own |-> {}, one |-> FALSE, engine |-> 0, allow |-> FALSE, sure |-> FALSE, window |-> FALSE,
         release |-> FALSE, relsure |-> FALSE, sent |-> <<>>, probe |-> FALSE]
InitSt(t) == [strict |-> t.strict, conc |-> t.conc, served |-> t.served, caps |-> t.caps, mg |-> <<>>, req |-> <<>>, msg |-> <<>>,
              est |-> [x \in 0..t.ne |-> NoEst], dl |-> NoDl, open |-> 0, ivs |-> {}, barred |-> {}]

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Has(q, x) == \E i \in 1..Len(q) : q[i] = x
Reqs(st) == 1..Len(st.req)
Strict(st) == st.strict /\ ~st.conc

(* ---- managers: eng0 the configured engine (0: none); known: has the remote engine answered; engs: engines that
   new requests may be addressed to; firm: an authenticated response has settled which; muddled: it may or may not have been discovered, so the owners of later probes are not known ---- *)
NewMgr(e) == [eng0 |-> e.eng0, addr |-> e.addr, ns |-> e.ns, known |-> "no", engs |-> IF e.eng0 = 0 THEN {} ELSE {e.eng0}, firm |-> FALSE, alive |-> TRUE, used |-> FALSE, muddled |-> FALSE]
MgrOf(st, e) == {i \in 1..Len(st.mg) : st.mg[i].addr = e.addr}

(* ---- requests ---- *)
Cap(st, u) == IF u = 0 \/ u > Len(st.caps) THEN -1 ELSE st.caps[u]
NewReq(st, e) == [m |-> e.m, kind |-> e.kind, a |-> e.a, b |-> e.b, vbs |-> e.vbs, lvl |-> e.lvl, user |-> e.user, P |-> e.P, exp |-> e.now + e.T,
                  st |-> "live", incall |-> TRUE, sent |-> FALSE, t0 |-> -1, last |-> -1, extra |-> 0, slot |-> 0, engine |-> -1, rid |-> <<0, 0>>, gen |-> 0, fuzzy |-> FALSE, tried |-> FALSE,
                  refused |-> e.lvl > 0 /\ Cap(st, e.user) < e.lvl, ans |-> <<>>, exc |-> <<>>, waiting |-> e.auto, wfrom |-> e.now, endin |-> 0, intr |-> FALSE]
Alive(st, i)   == st.req[i].st = "live"
SureAns(r)  == {n \in 1..Len(r.ans) : r.ans[n].sure}
MustAns(r)  == {n \in SureAns(r) : r.ans[n].end >= 0 /\ r.ans[n].end < r.exp}
AuthExc(r)  == {n \in 1..Len(r.exc) : r.exc[n].auth}
Unauth(r)   == {n \in 1..Len(r.exc) : ~r.exc[n].auth}
Over(r)     == SureAns(r) # {} \/ \E n \in AuthExc(r) : r.exc[n].sure       \* certainly finished
Touched(r)  == Len(r.ans) > 0 \/ AuthExc(r) # {} \/ r.refused              \* possibly finished
Expired(r, t) == t >= r.exp
(* transmitted, and certainly still waiting for its answer *)
Active(st, m, t)  == {i \in Reqs(st) : st.req[i].m = m /\ Alive(st, i) /\ st.req[i].sent /\ ~Expired(st.req[i], t) /\ ~Touched(st.req[i])}
MayActive(st, m, t) == {i \in Reqs(st) : st.req[i].m = m /\ Alive(st, i) /\ ~Expired(st.req[i], t) /\ (st.req[i].sent \/ st.req[i].refused)}
Held(st, m, t)    == {i \in Reqs(st) : st.req[i].m = m /\ Alive(st, i) /\ ~st.req[i].sent /\ ~Expired(st.req[i], t) /\ ~st.req[i].refused}
Queue(st, m, t)   == {i \in Reqs(st) : st.req[i].m = m /\ Alive(st, i) /\ ~st.req[i].sent /\ ~st.req[i].tried /\ (~Strict(st) \/ ~Expired(st.req[i], t))}
SlotOf(r, t)  == (t - r.t0) \div r.P
DueSlot(r, t) == LET lim == (r.exp - 1 - r.t0) \div r.P IN IF SlotOf(r, t) < lim THEN SlotOf(r, t) ELSE lim

(* ---- outstanding messages ---- *)
MsgLive(st, n) == \E i \in st.msg[n].own : Alive(st, i)
MsgOf(st, id)  == {n \in 1..Len(st.msg) : st.msg[n].id = id /\ MsgLive(st, n)}
MsgIdOK(i) == i[1] \in 0..32767 /\ i # <<0, 0>>
ReqIdOK(i) == i[1] \in -32768..32767 /\ i # <<0, 0>>

(***************************************************************************)
(* Transmissions                                                           *)
(***************************************************************************)
Same(r, e) == r.kind = e.pdu /\ r.vbs = e.vbs /\ r.a = e.a /\ r.b = e.b
Owners(st, m, e) == {i \in Reqs(st) : st.req[i].m = m /\ Same(st.req[i], e)}
OwnerOf(st, m, e) == LET o == Owners(st, m, e)
                         l == {i \in o : Alive(st, i)} IN
                     IF l # {} THEN Min(l) ELSE IF o # {} THEN Max(o) ELSE 0

(* (a request of the empty user may be addressed to the empty engine: a report told it to) *)
Anonymous(st, m, e) == e.vbs # <<>> /\ \E i \in Owners(st, m, e) : Alive(st, i) /\ st.req[i].user = 0
IsProbe(st, m, e) == e.engine = 0 /\ e.user = 0 /\ ~Anonymous(st, m, e)

IdBad(st, e) == (IF ~MsgIdOK(e.msgid) THEN {<<"C08", "msgid-range">>} ELSE {})
                \cup (IF \E n \in MsgOf(st, e.msgid) : Cardinality(st.msg[n].own) = 1 THEN {<<"C08", "msgid-collision">>} ELSE {})

(* a probe carries nothing of any request *)
ProbeForm(e) == (IF e.lvl # 0 \/ e.vbs # <<>> \/ e.pdu # "get" \/ e.ce # 0 \/ e.cn # 0 THEN {<<"C13", "probe-form">>, <<"C14", "probe-form">>} ELSE {})
                \cup (IF ~e.reportable THEN {<<"C13", "probe-not-reportable">>} ELSE {})
InCall(st, m)  == {i \in Reqs(st) : st.req[i].m = m /\ st.req[i].incall /\ ~st.req[i].sent /\ Alive(st, i)}
Probers(st, m) == {i \in Reqs(st) : st.req[i].m = m /\ Alive(st, i) /\ st.req[i].sent /\ st.req[i].engine = -1}
DueProbers(st, m, t) == {i \in Probers(st, m) : SlotOf(st.req[i], t) > st.req[i].slot /\ ~Expired(st.req[i], t) /\ ~Over(st.req[i]) /\ ~st.req[i].tried}
(* what is wrong with the probe if it is i's *)
ProbeViol(st, m, e, i) ==
    LET r == st.req[i] IN
    IF ~r.sent
    THEN (IF st.mg[m].known = "no" /\ Active(st, m, e.now) # {} THEN {<<"C13", "second-probe">>} ELSE {})
         \cup (IF Expired(r, e.now) /\ ~r.incall THEN {<<"C09", "after-timeout">>} ELSE {})
    ELSE (IF Expired(r, e.now) THEN {<<"C09", "after-timeout">>} ELSE {})
         \cup (IF SlotOf(r, e.now) <= r.slot THEN {<<"C09", "too-often">>, <<"C13", "second-probe">>} ELSE {})
(* whose probe is it: one that is due for retransmission, or the oldest one held back or being issued *)
Likely(st, m, e) ==
    LET cand == Queue(st, m, e.now) \cup InCall(st, m) IN
    IF (st.mg[m].known # "no" \/ st.mg[m].muddled) /\ InCall(st, m) # {} THEN Min(InCall(st, m))
    ELSE IF DueProbers(st, m, e.now) # {}    \* (one whose level is impossible may have ended unnoticed)
    THEN LET d == DueProbers(st, m, e.now)
             f == {i \in d : ~st.req[i].refused} IN Min(IF f # {} THEN f ELSE d)
    ELSE IF cand # {} THEN Min(cand)
    ELSE IF Probers(st, m) # {} THEN Max(Probers(st, m)) ELSE 0
ProbeOwner(st, m, e) ==
    LET i == Likely(st, m, e) IN
    IF i = 0 \/ (i # 0 /\ ProbeViol(st, m, e, i) = {}) THEN i
    ELSE LET others == {j \in Probers(st, m) : ProbeViol(st, m, e, j) = {}} IN
         IF others # {} THEN Min(others) ELSE i
(* probes of several requests cannot be told apart *)
ProbeOwn(st, m, e) == {ProbeOwner(st, m, e)} \cup {i \in Probers(st, m) : ~Strict(st) \/ ~Expired(st.req[i], e.now)}
                      \cup (IF st.mg[m].muddled \/ ~Strict(st) THEN Probers(st, m) \cup Queue(st, m, e.now) \cup InCall(st, m) ELSE {})

ProbeBad(st, m, e) ==
    ProbeForm(e) \cup
    (IF st.mg[m].eng0 # 0 \/ (Strict(st) /\ st.mg[m].firm /\ Probers(st, m) = {}) THEN {<<"C13", "needless-probe">>} ELSE {}) \cup
    (IF ~Strict(st) \/ st.mg[m].muddled THEN {} ELSE
     LET i == ProbeOwner(st, m, e) IN
     (IF st.dl.on THEN {<<"C13", "unprompted-probe">>, <<"C17", "unprompted">>} ELSE {}) \cup
     (IF i = 0 THEN {<<"C13", "nobody's-probe">>, <<"C09", "unasked">>} ELSE ProbeViol(st, m, e, i)))

(* every datagram with a request in it *)
DataForm(st, r, e) ==
    (IF e.user # r.user THEN {<<"C14", "user">>} ELSE {})
    \cup (IF e.lvl # r.lvl THEN {<<"C14", "level">>} ELSE {})
    \cup (IF e.lvl >= 1 /\ ~e.genuine THEN {<<"C14", "authentication-code">>} ELSE {})
    \cup (IF e.ce # e.engine \/ e.cn # 0 THEN {<<"C14", "context">>} ELSE {})
    \cup (IF ~e.reportable THEN {<<"C14", "not-reportable">>} ELSE {})
    \cup (IF r.refused THEN {<<"C14", "impossible-level">>} ELSE {})
    \cup (IF e.lvl >= 1 /\ Strict(st) /\ ~st.est[e.engine].unsure
             /\ (e.boots # BootsNow(st.est[e.engine]) \/ e.time # TimeNow(st.est[e.engine], e.now))
          THEN {<<"C14", "boots-and-time">>, <<"C17", "boots-and-time">>} ELSE {})
    \cup (IF ~ReqIdOK(e.rid) THEN {<<"C08", "request-id">>} ELSE {})
    \cup (IF r.rid # <<0, 0>> /\ r.rid # e.rid THEN {<<"C08", "request-id-changed">>} ELSE {})

(* while a datagram is being processed, only what it calls for is sent *)
DlSend(st, i, e) ==
    LET r == st.req[i] IN
    IF st.dl.allow /\ i \in st.dl.own /\ ~Has(st.dl.sent, i)
    THEN (IF e.engine # st.dl.engine THEN {<<"C17", "engine">>, <<"C14", "engine">>} ELSE {})
         \cup (IF Over(r) THEN {<<"C09", "after-answer">>} ELSE {})
         \cup (IF Expired(r, e.now) THEN {<<"C09", "after-timeout">>} ELSE {})
    ELSE IF ~r.sent /\ r.m = st.dl.m /\ st.dl.release
    THEN (IF e.engine # st.dl.engine THEN {<<"C13", "engine">>, <<"C14", "engine">>} ELSE {})
         \cup (IF Expired(r, e.now) THEN {<<"C09", "after-timeout">>, <<"C11", "sent-after-end">>} ELSE {})
         \cup (IF \E j \in Held(st, r.m, e.now) : j < i THEN {<<"C13", "order">>} ELSE {})
    ELSE IF r.sent THEN {<<"C17", "unprompted">>, <<"C09", "too-often">>} \cup (IF st.dl.probe THEN {<<"C13", "sent-twice">>} ELSE {})
    ELSE {<<"C13", "released-early">>, <<"C17", "unprompted">>}
AppSend(st, i, e) ==
    LET r == st.req[i]
        g == st.mg[r.m] IN
    IF ~r.sent
    THEN (IF g.eng0 = 0 /\ g.known = "no" THEN {<<"C13", "before-discovery">>} ELSE {})
         \cup (IF g.eng0 # 0 /\ g.known = "no" /\ r.lvl > 0 /\ Active(st, r.m, e.now) # {} THEN {<<"C13", "not-held-back">>} ELSE {})
         \cup (IF e.engine \notin g.engs THEN {<<"C14", "engine">>} ELSE {})
         \cup (IF Expired(r, e.now) /\ ~r.incall THEN {<<"C09", "after-timeout">>, <<"C11", "sent-after-end">>} ELSE {})
    ELSE (IF r.engine = -1 THEN {<<"C13", "before-discovery">>} ELSE IF e.engine # r.engine THEN {<<"C14", "engine">>} ELSE {})
         \cup (IF Over(r) THEN {<<"C09", "after-answer">>} ELSE {})
         \cup (IF Expired(r, e.now) THEN {<<"C09", "after-timeout">>} ELSE {})
         \cup (IF SlotOf(r, e.now) <= r.slot THEN {<<"C09", "too-often">>} ELSE {})

(* encryption: a key and initial value (iv numbers the two) never serve two ciphertexts, and the peer can read them *)
Encrypted(e) == e.ok /\ e.ver = 3 /\ e.lvl = 2
IVBad(st, e)  == IF ~Encrypted(e) THEN {}
                 ELSE (IF \E p \in st.ivs : p[1] = e.iv /\ p[2] # e.ct THEN {<<"C21", "iv-reused">>} ELSE {})
                      \cup (IF e.genuine /\ ~e.readable THEN {<<"C21", "unreadable">>} ELSE {})
IVStep(st, e) == IF Encrypted(e) THEN [st EXCEPT !.ivs = @ \cup {<<e.iv, e.ct>>}] ELSE st

SendBad(st, e) ==
    IF ~e.ok THEN {<<"C14", "malformed">>, <<"C08", "malformed">>}
    ELSE IF e.ver # 3 THEN {}
    ELSE IF e.readable /\ e.engine \in st.barred THEN {<<"C20", "foreign-engine">>, <<"C14", "engine">>}
    ELSE IF MgrOf(st, e) = {} THEN {<<"C24", "address">>, <<"C09", "address">>}
    ELSE LET m == Min(MgrOf(st, e)) IN
         IdBad(st, e) \cup (IF e.model # 3 THEN {<<"C14", "model">>} ELSE {}) \cup
         (IF ~e.readable THEN {<<"C14", "unreadable">>, <<"C17", "unreadable">>}
          ELSE IF IsProbe(st, m, e) THEN ProbeBad(st, m, e)
          ELSE LET i == OwnerOf(st, m, e) IN
               IF i = 0 THEN {<<"C14", "unasked">>, <<"C08", "content-changed">>}
               ELSE IF ~Alive(st, i)   \* (the listener, or another thread of the application, may have been at work for it when it ended)
                    THEN IF (st.open # 0 /\ st.open = st.req[i].endin) \/ (st.conc /\ st.req[i].extra = 0) THEN {} ELSE {<<"C11", "sent-after-end">>}
               ELSE DataForm(st, st.req[i], e)
                    \cup (IF ~Strict(st) THEN {} ELSE IF st.dl.on THEN DlSend(st, i, e) ELSE AppSend(st, i, e)))

SendStep(st, e) ==
    IF ~e.ok \/ e.ver # 3 \/ MgrOf(st, e) = {} \/ ~e.readable THEN st
    ELSE LET m == Min(MgrOf(st, e)) IN
         IF IsProbe(st, m, e)
         THEN LET i == ProbeOwner(st, m, e)
                  mm == [id |-> e.msgid, own |-> ProbeOwn(st, m, e) \ {0}, engine |-> 0, user |-> 0, lvl |-> 0, gen |-> IF i = 0 THEN 0 ELSE st.req[i].gen, probe |-> TRUE] IN
              IF i = 0 THEN st
              ELSE IF st.req[i].sent
              THEN [st EXCEPT !.msg = Append(@, mm), !.req[i].slot = SlotOf(st.req[i], e.now)]
              ELSE [st EXCEPT !.msg = Append(@, mm), !.req[i].sent = TRUE, !.req[i].t0 = e.now, !.req[i].slot = 0]
         ELSE LET i == OwnerOf(st, m, e) IN
              IF i = 0 THEN st
              ELSE IF ~Alive(st, i) THEN [st EXCEPT !.req[i].extra = @ + 1]
              ELSE LET r == st.req[i]
                       mm == [id |-> e.msgid, own |-> {i}, engine |-> e.engine, user |-> e.user, lvl |-> e.lvl, gen |-> r.gen, probe |-> FALSE]
                       first == ~r.sent \/ st.dl.on IN
                   [st EXCEPT !.msg = Append(@, mm),
                              !.req[i] = [r EXCEPT !.sent = TRUE, !.engine = e.engine, !.rid = e.rid, !.last = e.now,
                                                   !.t0 = IF first THEN e.now ELSE @, !.slot = IF first THEN 0 ELSE SlotOf(r, e.now)],
                              !.dl.sent = IF st.dl.on THEN Append(@, i) ELSE @]

(***************************************************************************)
(* Time passes while an application thread sleeps in wait()                *)
(***************************************************************************)
Waiters(st) == {i \in Reqs(st) : st.req[i].waiting /\ Alive(st, i)}
AdvBad(st, e) ==
    IF ~Strict(st) THEN {} ELSE
    UNION {LET w == st.req[i]
               m == w.m
               mud == st.mg[m].muddled
               act == {j \in Active(st, m, e.from) : ~mud \/ st.req[j].engine # -1}
               held == IF mud THEN {} ELSE Held(st, m, e.from) IN
           (IF \E j \in act : st.req[j].slot < DueSlot(st.req[j], e.from) THEN {<<"C09", "missed">>} ELSE {})
           \cup (IF \E j \in act : LET r == st.req[j]
                                       next == r.t0 + (DueSlot(r, e.from) + 1) * r.P
                                   IN next < r.exp /\ e.to > next
                 THEN {<<"C09", "late">>} ELSE {})
           \cup (IF e.to > w.exp THEN {<<"C10", "overrun">>} ELSE {})
           \cup (IF Over(w) THEN {<<"C10", "not-prompt">>, <<"C16", "not-prompt">>} ELSE IF w.intr THEN {<<"C10", "not-prompt">>} ELSE {})
           \cup (IF held # {} /\ MayActive(st, m, e.from) = {} THEN {<<"C13", "nobody-transmits">>, <<"C10", "stuck">>} ELSE {})
           \cup (IF held # {} /\ st.mg[m].known = "yes" THEN {<<"C13", "still-held-back">>} ELSE {})
           \cup (IF st.mg[m].eng0 # 0 /\ \E j \in held : st.req[j].lvl = 0 THEN {<<"C13", "still-held-back">>} ELSE {})
           : i \in Waiters(st)}

(***************************************************************************)
(* Datagrams handed to the library                                         *)
(***************************************************************************)
Stats == <<1, 3, 6, 1, 6, 3, 15, 1, 1>>
ReportKind(oid) == IF Len(oid) = 11 /\ SubSeq(oid, 1, 9) = Stats /\ oid[11] = 0
                   THEN CASE oid[10] = 1 -> "UnsupportedSecurityLevelReport" [] oid[10] = 2 -> "window" [] oid[10] = 3 -> "UnknownUserNameReport"
                          [] oid[10] = 4 -> "engine" [] oid[10] = 5 -> "WrongDigestReport" [] oid[10] = 6 -> "DecryptionErrorReport"
                          [] OTHER -> "UnrecognizedReport"
                   ELSE IF oid = <<>> THEN "none" ELSE "UnrecognizedReport"

(* who holds a claim on engine x, certainly or possibly *)
HeldBy(st, x)    == {st.mg[st.req[i].m].ns : i \in {j \in Reqs(st) : Alive(st, j) /\ st.req[j].engine = x /\ ~st.req[j].refused}}
                    \cup {st.mg[k].ns : k \in {j \in 1..Len(st.mg) : st.mg[j].alive /\ x # 0 /\ (st.mg[j].eng0 = x \/ st.mg[j].firm) /\ st.mg[j].engs = {x}}}
MayHold(st, x)   == HeldBy(st, x) \cup {st.mg[k].ns : k \in {j \in 1..Len(st.mg) : st.mg[j].alive /\ x \in st.mg[j].engs}}
                    \cup {st.mg[st.req[i].m].ns : i \in {j \in Reqs(st) : Alive(st, j) /\ (st.req[j].engine = x \/ st.req[j].refused)}}

Usable(e) == e.ok /\ e.ver = 3 /\ e.well # "no" /\ e.model = 3 /\ e.lvl # 3 /\ e.boots >= 0 /\ e.time >= 0
(* how far the message is authentic: "no", "maybe", "yes" *)
Authentic(st, e) ==
    IF ~Usable(e) THEN "no"
    ELSE IF e.lvl = 0 THEN (IF e.well = "yes" THEN "yes" ELSE "maybe")
    ELSE IF ~e.genuine \/ Cap(st, e.user) < e.lvl \/ MayHold(st, e.engine) = {} THEN "no"
    ELSE IF HeldBy(st, e.engine) # {} /\ e.well = "yes" THEN "yes" ELSE "maybe"
EstAfter(st, e) ==
    LET es == st.est[e.engine]
        au == Authentic(st, e) IN
    IF au = "no" THEN es
    ELSE IF e.lvl = 0 THEN (IF au = "yes" THEN Hint(es, e.boots, e.time, e.now)
                            ELSE IF es.auth THEN es ELSE [Hint(es, e.boots, e.time, e.now) EXCEPT !.unsure = TRUE])
    ELSE IF au = "yes" THEN [Learn(es, e.boots, e.time, e.now) EXCEPT !.unsure = es.unsure /\ es.auth]
    ELSE [Learn(es, e.boots, e.time, e.now) EXCEPT !.unsure = TRUE]
(* is the message accepted by the security model: "no", "maybe", "yes" *)
Accepted(st, e) ==
    LET au == Authentic(st, e)
        es == EstAfter(st, e) IN
    IF au = "no" \/ ~e.readable THEN "no"
    ELSE IF e.lvl = 0 THEN au
    ELSE IF es.unsure THEN "maybe"
    ELSE IF ~Strict(st) /\ es.boots = e.boots /\ Lags(es, e.time, e.now, Window + 8) /\ ~Lags(es, e.time, e.now, Window - 8) THEN "maybe"
    ELSE IF Timely(es, e.boots, e.time, e.now) THEN au ELSE "no"

One(S) == Cardinality(S) = 1
Own(st, n) == {i \in st.msg[n].own : Alive(st, i)}
DlvStep(st0, e) ==
    LET acc == Accepted(st0, e)
        st1 == IF Usable(e) THEN [st0 EXCEPT !.est[e.engine] = EstAfter(st0, e)] ELSE st0
        st  == [st1 EXCEPT !.dl = [NoDl EXCEPT !.on = TRUE, !.d = e.d]]
        ns  == MsgOf(st, e.msgid) IN
    IF ~e.ok \/ e.ver # 3 THEN st
    ELSE IF acc = "no" \/ ns = {} THEN st
    ELSE LET n == Max(ns)
             mm == st.msg[n]
             own == Own(st, n)
             m == st.req[Min(own)].m
             g == st.mg[m]
             sure == acc = "yes" /\ One(mm.own)
             unknown == g.known # "yes" IN
         IF e.user # mm.user \/ e.cn # 0 THEN st
         ELSE IF e.pdu = "response"
         THEN IF e.lvl < mm.lvl \/ e.engine # mm.engine \/ e.ce # mm.engine \/ mm.probe THEN st
              ELSE LET i == Min(own)
                       s == sure /\ e.rid = st.req[i].rid /\ e.engine # 0
                       can == g.eng0 = 0 \/ e.lvl > 0 \/ e.engine = g.eng0   \* (only an authenticated message may name another engine than the configured one)
                       named == s /\ ~Expired(st.req[i], e.now) /\ ~Touched(st.req[i]) /\ can
                       rec == [d |-> e.d, end |-> -1, sure |-> s, est |-> e.a, eidx |-> e.b, vbs |-> e.vbs] IN
                   [st EXCEPT !.req[i].ans = Append(@, rec),
                              !.mg[m].engs = IF Strict(st) /\ named /\ e.lvl > 0 THEN {e.engine}
                                             ELSE IF e.lvl > 0 \/ (g.eng0 = 0 /\ ~g.firm) THEN @ \cup {e.engine} ELSE @,
                              !.mg[m].firm = @ \/ (Strict(st) /\ named /\ e.lvl > 0),
                              !.mg[m].known = IF @ = "yes" \/ ~can THEN @ ELSE IF named THEN "yes" ELSE "maybe",
                              !.mg[m].muddled = @ \/ (can /\ g.known # "yes" /\ ~named),
                              !.dl.m = m, !.dl.engine = e.engine, !.dl.release = g.eng0 # 0 /\ unknown /\ can, !.dl.relsure = named /\ g.eng0 # 0]
         ELSE IF e.pdu = "report"
         THEN LET k == ReportKind(e.roid)
                  i == Min(own)
                  r == st.req[i] IN
              IF k = "none" THEN st
              ELSE IF k \in {"engine", "window"} /\ e.engine \in st.barred    \* (another namespace's engine: nothing may be sent there)
              THEN IF unknown /\ (~sure \/ Expired(r, e.now) \/ Touched(r)) /\ (g.eng0 = 0 \/ g.eng0 = e.engine)
                   THEN [st EXCEPT !.mg[m].known = "maybe", !.mg[m].muddled = TRUE] ELSE st
              ELSE IF k = "engine"
              THEN IF One(mm.own) /\ e.engine = r.engine /\ ~mm.probe THEN st
                   ELSE LET ok == sure /\ e.engine # 0 /\ e.engine # r.engine /\ ~Expired(r, e.now) /\ ~Touched(r) IN
                        [st EXCEPT !.dl.m = m, !.dl.own = own, !.dl.one = One(mm.own), !.dl.engine = e.engine, !.dl.allow = TRUE, !.dl.probe = mm.probe, !.dl.sure = ok,
                                   !.dl.release = unknown /\ (g.eng0 = 0 \/ g.eng0 = e.engine), !.dl.relsure = ok /\ unknown /\ (g.eng0 = 0 \/ g.eng0 = e.engine)]
              ELSE IF k = "window"
              THEN IF One(mm.own) /\ mm.gen # r.gen THEN st
                   ELSE LET ok == sure /\ e.lvl > 0 /\ ~r.fuzzy /\ ~Expired(r, e.now) /\ ~Touched(r) IN
                        [st EXCEPT !.dl.m = m, !.dl.own = own, !.dl.one = One(mm.own), !.dl.engine = e.engine, !.dl.allow = TRUE, !.dl.probe = mm.probe, !.dl.window = TRUE, !.dl.sure = ok,
                                   !.dl.release = unknown /\ (g.eng0 = 0 \/ g.eng0 = e.engine), !.dl.relsure = ok /\ unknown /\ g.eng0 = e.engine]
              ELSE LET rec == [d |-> e.d, end |-> -1, sure |-> sure, auth |-> e.lvl > 0, name |-> k, binding |-> e.vbs[1]] IN
                   [st EXCEPT !.req = [j \in DOMAIN @ |-> IF j \in own THEN [@[j] EXCEPT !.exc = Append(@, rec)] ELSE @[j]]]
         ELSE st

DlvEndBad(st, e) ==
    (IF e.exc # "" THEN {<<"C25", "listener-exception">>} ELSE {}) \cup
    (IF ~Strict(st) \/ ~st.dl.on THEN {} ELSE
     (IF st.dl.sure /\ \E i \in st.dl.own : ~Touched(st.req[i]) /\ ~Has(st.dl.sent, i)
      THEN {<<"C17", "not-retransmitted">>} \cup (IF st.dl.probe THEN {<<"C13", "not-released">>} ELSE {}) ELSE {})
     \cup (IF st.dl.relsure /\ Held(st, st.dl.m, e.now) # {} THEN {<<"C13", "not-released">>} ELSE {}))
DlvEndStep(st, e) ==
    LET dl == st.dl
        Ended(q) == [n \in DOMAIN q |-> IF q[n].d = e.d THEN [q[n] EXCEPT !.end = e.now] ELSE q[n]]
        did == dl.on /\ Len(dl.sent) > 0 IN
    [st EXCEPT !.req = [i \in DOMAIN @ |-> [@[i] EXCEPT !.ans = Ended(@), !.exc = Ended(@),
                                                        !.gen = IF dl.window /\ i \in dl.own /\ (dl.sure \/ (dl.one /\ Has(dl.sent, i))) THEN @ + 1 ELSE @,
                                                        !.tried = @ \/ (dl.on /\ st.req[i].refused /\ ((dl.one /\ i \in dl.own) \/ (st.req[i].m = dl.m /\ dl.relsure))),
                                                        !.fuzzy = @ \/ (dl.window /\ i \in dl.own /\ ~dl.sure /\ ~(dl.one /\ Has(dl.sent, i)))]],
               !.mg = [i \in DOMAIN @ |-> IF dl.on /\ i = dl.m /\ (dl.allow \/ dl.release)
                                          THEN [@[i] EXCEPT !.engs = IF st.mg[i].eng0 # 0 \/ st.mg[i].firm THEN @ ELSE @ \cup {dl.engine},
                                                            !.known = IF @ = "yes" THEN @
                                                                      ELSE IF dl.relsure THEN "yes" ELSE IF dl.release THEN "maybe" ELSE @,
                                                            !.muddled = @ \/ (dl.release /\ st.mg[i].known # "yes" /\ ~dl.relsure)]
                                          ELSE @[i]],
               !.dl = NoDl]

(***************************************************************************)
(* Results                                                                 *)
(***************************************************************************)
CauseOK(r, a, e) == IF a.eidx = 0 THEN e.cause = "pdu"
                    ELSE IF a.eidx \in 1..Len(r.vbs) THEN e.cause = "vb" /\ e.cvb = r.vbs[a.eidx]
                    ELSE TRUE
ResultOK(r, e) == \/ e.out = "ok" /\ \E n \in 1..Len(r.ans) : r.ans[n].est = 0 /\ r.ans[n].vbs = e.vbs
                  \/ e.out = "err" /\ \E n \in 1..Len(r.ans) : r.ans[n].est = e.est /\ e.est # 0 /\ CauseOK(r, r.ans[n], e)
Says(x, e) == x.name = e.exc /\ x.binding = e.binding
Lost == {<<"C10", "lost">>, <<"C12", "lost">>, <<"C25", "lost">>, <<"C11", "lost">>, <<"C15", "lost">>}
ReportBad(r, e) ==
    IF \E n \in AuthExc(r) : Says(r.exc[n], e) /\ ~\E a \in SureAns(r) : r.ans[a].d < r.exc[n].d THEN {}
    ELSE IF \E n \in Unauth(r) : Says(r.exc[n], e) /\ ~\E k \in Unauth(r) : k < n /\ r.exc[k].sure
    THEN (IF e.now < r.exp /\ ~r.intr THEN {<<"C16", "ended-early">>, <<"C10", "ended-early">>} ELSE {})
         \cup (IF MustAns(r) # {} THEN {<<"C16", "response-lost">>} \cup Lost ELSE {})
    ELSE {<<"C16", "exception">>}
(* among preempted threads, but while the clock stood still whenever one of them could run: every refresh was due, and every answer came *)
CalmBad(st, r, e) ==
    IF ~(st.conc /\ e.calm /\ e.out = "timeout") \/ r.refused THEN {}
    ELSE (IF ~Touched(r) /\ r.last >= 0 /\ r.last + r.P < r.exp /\ r.wfrom < r.exp THEN {<<"C09", "starved">>, <<"C12", "starved">>} ELSE {})
         \cup (IF st.served THEN {<<"C12", "unserved">>, <<"C10", "unserved">>} ELSE {})
WaitEndBad(st, e) ==
    LET r == st.req[e.r] IN
    (CASE e.out \in {"ok", "err"} -> IF ResultOK(r, e) THEN {} ELSE {<<"C15", "result">>, <<"C12", "result">>}
       [] e.out = "report"  -> ReportBad(r, e)
       [] e.out = "timeout" -> (IF e.now < r.exp THEN {<<"C10", "early-timeout">>, <<"C12", "early-timeout">>} ELSE {})
                               \cup (IF MustAns(r) # {} THEN Lost ELSE {})
                               \cup (IF \E n \in 1..Len(r.exc) : r.exc[n].sure /\ r.exc[n].end >= 0 /\ r.exc[n].end < r.exp THEN {<<"C16", "timeout-instead">>} ELSE {})
       \* an application that stops waiting is told what an unauthenticated report said
       [] e.out = "intr" /\ r.intr -> IF \E n \in 1..Len(r.exc) : r.exc[n].sure THEN {<<"C16", "interrupt-instead">>} ELSE {}
       [] OTHER -> IF r.refused THEN {}
                   ELSE {<<"C10", "exception">>, <<"C12", "exception">>, <<"C25", "exception">>}
                        \cup (IF e.exc = "CacheError" THEN {<<"C11", "identifiers-used-up">>, <<"C08", "identifiers-used-up">>} ELSE {}))
    \cup (IF Strict(st) /\ e.now > r.exp /\ e.now > r.wfrom THEN {<<"C10", "overrun">>} ELSE {})
    \cup CalmBad(st, r, e)
End(st, i) == [st EXCEPT !.req[i].waiting = FALSE, !.req[i].st = "done", !.req[i].incall = FALSE, !.req[i].endin = st.open]

ReqEndBad(st, e) ==
    LET r == st.req[e.r]
        g == st.mg[r.m] IN
    IF e.out # "ok"
    THEN IF r.refused THEN {} ELSE {<<"C10", "call-failed">>, <<"C12", "call-failed">>, <<"C25", "call-failed">>}
                                   \cup (IF e.exc = "CacheError" THEN {<<"C11", "identifiers-used-up">>, <<"C08", "identifiers-used-up">>} ELSE {})
    ELSE IF r.refused \/ r.sent \/ ~Strict(st) THEN {}
    ELSE (IF ~g.used THEN {<<"C13", "first-not-sent">>, <<"C09", "never-sent">>} ELSE {})
         \cup (IF g.known = "yes" \/ (g.eng0 # 0 /\ r.lvl = 0) THEN {<<"C13", "held-back-needlessly">>, <<"C09", "never-sent">>} ELSE {})

(* another namespace tries to claim an engine *)
ClaimBad(st, e) ==
    LET others == MayHold(st, e.engine) \ {e.ns}
        surely == HeldBy(st, e.engine) \ {e.ns} IN
    (IF e.granted /\ surely # {} THEN {<<"C20", "claim-stolen">>, <<"C11", "claim-lost">>, <<"C12", "claim-lost">>} ELSE {})
    \cup (IF ~e.granted /\ others = {} THEN {<<"C11", "claim-kept">>, <<"C20", "claim-kept">>, <<"C12", "claim-kept">>} ELSE {})

Violated(st, e) ==
    CASE e.k = "send"    -> SendBad(st, e) \cup IVBad(st, e)
      [] e.k = "adv"     -> AdvBad(st, e)
      [] e.k = "dlvend"  -> DlvEndBad(st, e)
      [] e.k = "reqend"  -> ReqEndBad(st, e)
      [] e.k = "waitend" -> WaitEndBad(st, e)
      [] e.k \in {"claim", "hold"} -> ClaimBad(st, e)
      [] e.k \in {"drop", "gone"} -> IF e.dead THEN {} ELSE {<<"C11", "kept-alive">>}
      [] e.k = "hang"    -> {<<"C10", "hang">>, <<"C12", "hang">>, <<"C25", "hang">>, <<"C17", "hang">>}
      [] OTHER           -> {}

Step(st, e) ==
    CASE e.k = "mgr"     -> [st EXCEPT !.mg = Append(@, NewMgr(e))]
      [] e.k = "mdrop"   -> [st EXCEPT !.mg[e.m].alive = FALSE]
      [] e.k = "req"     -> [st EXCEPT !.req = Append(@, NewReq(st, e))]
      [] e.k = "reqend"  -> IF e.out # "ok" THEN End(st, e.r) ELSE [st EXCEPT !.req[e.r].incall = FALSE, !.mg[st.req[e.r].m].used = TRUE]
      [] e.k = "send"    -> IVStep(SendStep(st, e), e)
      [] e.k = "dlv"     -> [DlvStep(st, e) EXCEPT !.open = e.d, !.dl = IF st.conc THEN NoDl ELSE @]
      [] e.k = "dlvend"  -> [DlvEndStep(st, e) EXCEPT !.open = 0]
      [] e.k = "wait"    -> [st EXCEPT !.req[e.r].waiting = TRUE, !.req[e.r].wfrom = e.now]
      [] e.k = "waitend" -> [End(st, e.r) EXCEPT !.mg[st.req[e.r].m].used = TRUE]
      [] e.k = "drop"    -> End(st, e.r)
      \* another namespace claims an engine and keeps it, or hands it back
      [] e.k = "hold"    -> IF e.granted THEN [st EXCEPT !.barred = @ \cup {e.engine}] ELSE st
      [] e.k = "unhold"  -> [st EXCEPT !.barred = @ \ {e.engine}]
      [] e.k = "intr"    -> [st EXCEPT !.req = [i \in DOMAIN @ |-> [@[i] EXCEPT !.intr = @ \/ st.req[i].waiting]]]
      [] OTHER           -> st
=============================================================================
