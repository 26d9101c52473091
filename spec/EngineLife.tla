------------------------------ MODULE EngineLife ------------------------------
(***************************************************************************)
(* An SNMP engine as its owner sees it: which managers Engine.Manager      *)
(* makes (version, transport, destination, community, user, level), which  *)
(* calls it refuses, that managers with equal domain and local address     *)
(* share a socket, that existing managers keep working, and what is left   *)
(* after shutdown.                                                         *)
(* Violated(st, e) names the clauses that event e breaks; Step is total.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(* t.d: the engine's defaults [ver, dom, comm, auto]; t.nn namespaces *)
InitSt(t) == [d |-> t.d, cfg |-> [n \in 1..t.nn |-> [u \in 1..t.nu |-> -1]], def |-> [n \in 1..t.nn |-> 0],
              socks |-> <<>>, mgr |-> <<>>, src |-> <<>>, shut |-> FALSE, flood |-> FALSE]

(* ---------------------------------------------------------------- addresses *)
Any(dom) == IF dom = 4 THEN "0.0.0.0" ELSE "::"
(* An address argument is a record [form, host, kind, port]: form "none", "host" (text alone), "pair" (text and port) or   *)
(* "junk" (anything else).  kind is what the text denotes: "v4", "v6", "empty", "other" (no numeric address),              *)
(* "notext"; port is -1000000 when it is no number. `local`: the address is one of this engine's own.                      *)
HostOk(dom, a, local) == \/ a.form = "none"
                         \/ a.kind = "empty" /\ local
                         \/ a.kind = "v4" /\ dom = 4
                         \/ a.kind = "v6" /\ dom = 6
PortOk(a, local) == a.form \in {"none", "host"} \/ (a.port <= 65535 /\ a.port >= (IF local THEN 0 ELSE 1))
AddrOk(dom, a, local) == a.form # "junk" /\ HostOk(dom, a, local) /\ PortOk(a, local)
Host(dom, a) == IF a.form = "none" \/ a.kind = "empty" THEN Any(dom) ELSE a.host
Port(a, local) == IF a.form = "pair" THEN a.port ELSE IF local THEN 0 ELSE 161

Dom(st, e) == IF e.dom = 0 THEN st.d.dom ELSE e.dom
Ver(st, e) == IF e.ver = 0 THEN st.d.ver ELSE e.ver
DomOk(d) == d \in {4, 6}
VerOk(v) == v \in {1, 2, 3}
User(st, e) == IF e.user = 0 THEN st.def[e.ns] ELSE e.user
Level(st, e) == IF e.lvl = -1 THEN st.cfg[e.ns][User(st, e)] ELSE e.lvl
(* version 3 needs a user whose level is known *)
UserOk(st, e) == User(st, e) # 0 /\ (e.lvl # -1 \/ st.cfg[e.ns][User(st, e)] # -1)
MustRefuse(st, e) == \/ ~DomOk(Dom(st, e)) \/ ~VerOk(Ver(st, e))
                     \/ DomOk(Dom(st, e)) /\ (~AddrOk(Dom(st, e), e.addr, FALSE) \/ ~AddrOk(Dom(st, e), e.laddr, TRUE))
                     \/ Ver(st, e) = 3 /\ e.sm = 9
NoUser(st, e) == Ver(st, e) = 3 /\ ~UserOk(st, e)
(* a manager for no particular peer (the address left out) is not specified *)
Vague(e) == e.addr.form = "none"

(* ---------------------------------------------------------------- sockets *)
(* a socket: its domain, and the address and port it was bound to; sure: a manager uses it *)
Key(st, e) == [dom |-> Dom(st, e), host |-> Host(Dom(st, e), e.laddr), port |-> Port(e.laddr, TRUE)]
Same(x, k) == x.dom = k.dom /\ x.host = k.host /\ x.port = k.port
Having(st, k) == {i \in 1..Len(st.socks) : Same(st.socks[i], k)}
Sure(st, k) == {i \in Having(st, k) : st.socks[i].sure}

TransportBad(st, e) ==
    LET k == Key(st, e) IN
    IF Len(e.made) = 0 THEN (IF Having(st, k) = {} THEN {"C24.no-socket"} ELSE {})
    ELSE (IF Sure(st, k) # {} THEN {"C24.not-shared"} ELSE {})
         \cup (IF Len(e.made) > 1 \/ ~Same(e.made[1], k) THEN {"C24.wrong-binding"} ELSE {})
ManagerBad(st, e) ==
    IF st.shut THEN {}
    ELSE IF MustRefuse(st, e) THEN
         (IF e.out = "ok" THEN {"C24.accepted"}
          ELSE IF e.out # "refused" /\ e.bindable /\ ~NoUser(st, e) THEN {"C24.wrong-error"} ELSE {})
    ELSE IF NoUser(st, e) \/ ~e.bindable THEN (IF e.out = "ok" /\ ~Vague(e) THEN {"C24.accepted"} ELSE {})
    ELSE IF Vague(e) THEN {}
    ELSE IF e.out # "ok" THEN {"C24.refused"}
    ELSE (IF e.cls # Ver(st, e) THEN {"C24.wrong-version"} ELSE {}) \cup (IF e.real THEN {} ELSE TransportBad(st, e))
Learn(st, e) == [i \in 1..Len(e.made) |-> [dom |-> e.made[i].dom, host |-> e.made[i].host, port |-> e.made[i].port, id |-> e.made[i].id, sure |-> e.out = "ok"]]
Chosen(socks, k) == {socks[i].id : i \in {j \in 1..Len(socks) : Same(socks[j], k)}}
ManagerStep(st, e) ==
    LET ss == (IF e.out = "ok" /\ ~MustRefuse(st, e) /\ Len(e.made) = 0
               THEN [i \in 1..Len(st.socks) |-> IF Same(st.socks[i], Key(st, e)) THEN [st.socks[i] EXCEPT !.sure = TRUE] ELSE st.socks[i]]
               ELSE st.socks) \o Learn(st, e)
    IN IF e.out # "ok" \/ st.shut \/ MustRefuse(st, e) \/ NoUser(st, e) THEN [st EXCEPT !.socks = ss, !.mgr = Append(@, [live |-> FALSE])]
       ELSE [st EXCEPT !.socks = ss,
             !.mgr = Append(@, [live |-> ~Vague(e), ver |-> Ver(st, e), key |-> Key(st, e),
                                socks |-> IF Len(e.made) > 0 THEN {e.made[1].id} ELSE Chosen(ss, Key(st, e)),
                                host |-> Host(Dom(st, e), e.addr), port |-> Port(e.addr, FALSE),
                                comm |-> IF e.comm = 0 THEN st.d.comm ELSE e.comm,
                                user |-> IF Ver(st, e) = 3 THEN User(st, e) ELSE 0, lvl |-> IF Ver(st, e) = 3 THEN Level(st, e) ELSE 0,
                                eng |-> e.eng, auto |-> IF e.auto = -1 THEN st.d.auto ELSE e.auto = 1])]

(* ---------------------------------------------------------------- what a manager sends *)
(* e.probe: a discovery message, which carries neither user nor level *)
SendBad(st, e) ==
    LET m == st.mgr[e.m] IN
    IF ~m.live \/ st.shut THEN {} ELSE
    (IF e.sock \notin m.socks THEN {"C24.wrong-transport"} ELSE {})
    \cup (IF e.host # m.host \/ e.port # m.port THEN {"C24.wrong-destination"} ELSE {})
    \cup (IF e.ver # m.ver THEN {"C24.wrong-version"} ELSE {})
    \cup (IF e.ver = m.ver /\ m.ver # 3 /\ e.comm # m.comm THEN {"C24.wrong-community"} ELSE {})
    \cup (IF e.ver = 3 /\ m.ver = 3 /\ ~e.probe /\ (e.user # m.user \/ e.lvl # m.lvl) THEN {"C24.wrong-user"} ELSE {})
    \cup (IF e.ver = 3 /\ m.ver = 3 /\ m.eng # 0 /\ (e.probe \/ e.eng # m.eng) THEN {"C24.wrong-engine"} ELSE {})
(* a call without `wait`: did it wait for the response? *)
CallBad(st, e) == LET m == st.mgr[e.m] IN
    IF ~m.live \/ st.shut THEN {}
    ELSE (IF e.exc # "" THEN {"C24.interrupted"} ELSE IF e.waited # m.auto THEN {"C24.autowait"} ELSE {})
         \cup (IF ~e.sent THEN {"C24.interrupted"} ELSE {})

(* ---------------------------------------------------------------- real sockets *)
(* an answered request of manager m came from source e.src (port e.sport), and its result was (not) delivered *)
ResultBad(st, e) ==
    LET m == st.mgr[e.m] IN
    IF ~m.live \/ st.shut THEN {} ELSE
    (IF ~e.ok THEN {"C24.interrupted"} \cup (IF st.flood THEN {"C25.lost"} ELSE {}) ELSE {})
    \cup (IF e.src = 0 THEN {} ELSE
          (IF m.key.port # 0 /\ e.sport # m.key.port THEN {"C24.wrong-binding"} ELSE {})
          \cup (IF \E i \in 1..Len(st.src) : Same(st.src[i], m.key) /\ st.src[i].src # e.src THEN {"C24.not-shared"} ELSE {})
          \cup (IF \E i \in 1..Len(st.src) : ~Same(st.src[i], m.key) /\ st.src[i].dom = m.key.dom /\ st.src[i].src = e.src THEN {"C24.shared"} ELSE {}))
ResultStep(st, e) == LET m == st.mgr[e.m] IN
    IF ~m.live \/ st.shut \/ e.src = 0 THEN st ELSE [st EXCEPT !.src = Append(@, [dom |-> m.key.dom, host |-> m.key.host, port |-> m.key.port, src |-> e.src])]

UserStep(st, e) == IF e.out # "ok" THEN st ELSE [st EXCEPT !.cfg[e.ns][e.user] = e.lvl, !.def[e.ns] = IF e.def \/ @ = 0 THEN e.user ELSE @]

Violated(st, e) ==
    CASE e.k = "user"     -> {}
      [] e.k = "manager"  -> ManagerBad(st, e)
      [] e.k = "send"     -> SendBad(st, e)
      [] e.k = "call"     -> CallBad(st, e)
      [] e.k = "result"   -> ResultBad(st, e)
      \* exc: what shutdown (or leaving the with block) raised of its own; lost: it hid the application's exception
      [] e.k = "shutdown" -> (IF e.exc # "" THEN {"C24.shutdown-raised"} ELSE {}) \cup (IF e.lost THEN {"C24.exception-lost"} ELSE {})
      [] e.k = "after"    -> (IF e.threads > 0 THEN {"C24.thread-left"} ELSE {}) \cup (IF e.socks > 0 THEN {"C24.socket-left"} ELSE {})
      [] e.k = "hang"     -> {"C24.hang"} \cup (IF st.flood THEN {"C25.hang"} ELSE {})
      [] e.k = "thread"   -> {"C24.thread-died"} \cup (IF st.flood THEN {"C25.thread-died"} ELSE {})
      [] e.k = "flood"    -> {}
      [] OTHER -> {"SPEC.event"}
Step(st, e) ==
    CASE e.k = "user"     -> UserStep(st, e)
      [] e.k = "manager"  -> ManagerStep(st, e)
      [] e.k = "result"   -> ResultStep(st, e)
      [] e.k = "flood"    -> [st EXCEPT !.flood = TRUE]
      [] e.k = "shutdown" -> [st EXCEPT !.shut = TRUE]
      [] OTHER -> st
=============================================================================
