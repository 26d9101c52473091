---------------------------------- MODULE Usm ----------------------------------
(***************************************************************************)
(* The user-based security model as its callers see it: users and default  *)
(* users per namespace, the claims of namespaces on remote engines, the    *)
(* verdict on incoming messages, what it learns of each engine's clock,    *)
(* and the protection of outgoing messages.                                *)
(*                                                                         *)
(* Namespaces, users, engines and configurations are numbered.  A          *)
(* configuration stands for the protocols and secrets of a user; caps[c]   *)
(* is the highest level it supports.  `gen` of a message is the set of     *)
(* configurations whose key, localized to the engine the message names,    *)
(* verifies its authentication code over the exact octets.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, UsmTime

None == [c |-> 0, lvl |-> 0]
InitSt(t) == [caps |-> t.caps,
              cfg  |-> [n \in 1..t.nn |-> [u \in 1..t.nu |-> None]],
              def  |-> [n \in 1..t.nn |-> 0],
              own  |-> [x \in 0..t.ne |-> 0],       \* the namespace an engine belongs to
              n    |-> [x \in 0..t.ne |-> 0],       \* and how many claims it rests on
              est  |-> [x \in 0..t.ne |-> NoEst],
              ivs  |-> {}]

CapOf(st, c) == IF c = 0 THEN -1 ELSE st.caps[c]
SetOf(q) == {q[i] : i \in 1..Len(q)}

(* ---- users ---- *)
Level(st, e)  == IF e.lvl = -1 THEN CapOf(st, e.c) ELSE e.lvl
Known(st, e)  == st.cfg[e.ns][e.user].c # 0
Conflict(st, e) == LET x == st.cfg[e.ns][e.user] IN
                   Known(st, e) /\ (x.c # e.c \/ x.lvl # Level(st, e) \/ (e.def /\ st.def[e.ns] # e.user))
TooHigh(st, e) == Level(st, e) > CapOf(st, e.c)
AddOK(st, e)   == ~TooHigh(st, e) /\ ~Conflict(st, e)
AddBad(st, e)  == IF AddOK(st, e) THEN (IF e.out = "ok" THEN {} ELSE {<<"C20", "user-refused">>})
                  ELSE IF e.out = "ok" THEN (IF TooHigh(st, e) THEN {<<"C20", "level-too-high">>} ELSE {<<"C20", "conflict-accepted">>})
                  ELSE IF e.out = "ValueError" THEN {} ELSE {<<"C20", "exception">>}
AddStep(st, e) == IF ~AddOK(st, e) THEN st
                  ELSE [st EXCEPT !.cfg[e.ns][e.user] = [c |-> e.c, lvl |-> Level(st, e)],
                                  !.def[e.ns] = IF e.def \/ @ = 0 THEN e.user ELSE @]
(* an unknown user or namespace: any error *)
DefBad(st, e)  == IF st.def[e.ns] = 0 THEN (IF e.out = "none" \/ e.out = "ValueError" THEN {} ELSE {<<"C20", "default-user">>})
                  ELSE IF e.out = "ok" /\ e.user = st.def[e.ns] THEN {} ELSE {<<"C20", "default-user">>}
LvlBad(st, e)  == IF ~Known(st, e) THEN (IF e.out = "ok" THEN {<<"C20", "default-level">>} ELSE {})
                  ELSE IF e.out = "ok" /\ e.lvl = st.cfg[e.ns][e.user].lvl THEN {} ELSE {<<"C20", "default-level">>}

(* ---- claims ---- *)
Grant(st, e)     == st.own[e.engine] \in {0, e.ns}
AssignBad(st, e) == IF e.granted = Grant(st, e) THEN {} ELSE IF e.granted THEN {<<"C20", "claim-stolen">>} ELSE {<<"C20", "claim-refused">>}
AssignStep(st, e) == IF ~Grant(st, e) THEN st ELSE [st EXCEPT !.own[e.engine] = e.ns, !.n[e.engine] = @ + 1]
ReleaseStep(st, e) == IF st.own[e.engine] # e.ns THEN st
                      ELSE [st EXCEPT !.n[e.engine] = @ - 1, !.own[e.engine] = IF st.n[e.engine] = 1 THEN 0 ELSE @]
(* the configuration in force for a user of an engine *)
Cfg(st, x, u) == IF st.own[x] = 0 \/ u = 0 THEN 0 ELSE st.cfg[st.own[x]][u].c

(* ---- incoming messages ---- *)
Authentic(st, e) == LET c == Cfg(st, e.engine, e.user) IN e.ok /\ e.lvl \in {1, 2} /\ c # 0 /\ CapOf(st, c) >= e.lvl /\ c \in SetOf(e.gen)
After(st, e) == LET es == st.est[e.engine] IN
                IF ~e.ok THEN es
                ELSE IF e.lvl = 0 THEN Hint(es, e.boots, e.time, e.now)
                ELSE IF Authentic(st, e) THEN Learn(es, e.boots, e.time, e.now) ELSE es
InTime(st, e) == LET es == After(st, e) IN Timely(es, e.boots, e.time, e.now)
(* can the payload be read with the key in force? *)
Readable(st, e) == e.lvl < 2 \/ Cfg(st, e.engine, e.user) \in SetOf(e.dec)
InBad(st, e) ==
    LET must == e.ok /\ e.well = "yes" /\ e.lvl # 3 /\ (e.lvl = 0 \/ (Authentic(st, e) /\ InTime(st, e) /\ Readable(st, e))) IN
    IF e.out = "ok"
    THEN (IF e.claims = 0
          THEN (IF e.ok /\ e.lvl # 0 THEN {<<"C18", "level-forgotten">>} ELSE {})
          ELSE IF ~e.ok \/ e.claims # e.lvl \/ ~Authentic(st, e) THEN {<<"C18", "accepted">>}
          ELSE (IF InTime(st, e) THEN {} ELSE {<<"C19", "accepted">>}) \cup (IF Readable(st, e) THEN {} ELSE {<<"C21", "accepted">>}))
         \cup (IF e.ok /\ (e.rengine # e.engine \/ e.ruser # e.user) THEN {<<"C18", "identity">>} ELSE {})
         \cup (IF e.ok /\ e.well = "yes" /\ ~e.same THEN (IF e.lvl = 2 THEN {<<"C21", "payload">>, <<"C18", "payload">>} ELSE {<<"C18", "payload">>}) ELSE {})
    ELSE IF must THEN (IF e.lvl = 0 THEN {<<"C18", "refused">>} ELSE IF e.out = "NotInTimeWindow" THEN {<<"C19", "refused">>} ELSE IF e.lvl = 2 THEN {<<"C18", "refused">>, <<"C21", "refused">>} ELSE {<<"C18", "refused">>})
                      \cup (IF e.lvl > 0 THEN {<<"C20", "unusable">>} ELSE {})
    ELSE IF e.out = "exception" THEN {<<"C18", "exception">>, <<"C25", "exception">>}
    ELSE {}
(* a message that only an independent reader finds wrong may or may not have been a hint *)
InStep(st, e) == IF ~e.ok \/ (e.out # "ok" /\ (e.lvl \in {0, 3})) THEN st
                 ELSE [st EXCEPT !.est[e.engine] = [After(st, e) EXCEPT !.unsure = (e.well = "maybe" /\ e.lvl = 0 /\ ~@) \/ (st.est[e.engine].unsure /\ ~(e.lvl > 0 /\ Authentic(st, e)))]]

(* ---- outgoing messages ---- *)
OutBad(st, e) ==
    LET c == Cfg(st, e.engine, e.user)
        es == st.est[e.engine] IN
    IF e.lvl > 0 /\ (c = 0 \/ CapOf(st, c) < e.lvl)
    THEN (IF e.out = "ok" THEN (IF c = 0 THEN {<<"C20", "usable">>, <<"C14", "impossible-level">>} ELSE {<<"C14", "impossible-level">>, <<"C20", "usable">>}) ELSE {})
    ELSE IF e.out # "ok" THEN {<<"C20", "unusable">>, <<"C14", "refused">>}
    ELSE (IF e.wlvl # e.lvl \/ e.wuser # e.user \/ e.wengine # e.engine THEN {<<"C14", "level">>} ELSE {})
         \cup (IF e.lvl > 0 /\ c \notin SetOf(e.gen) THEN {<<"C20", "wrong-key">>, <<"C14", "authentication-code">>, <<"C18", "authentication-code">>, <<"C22", "authentication-code">>} ELSE {})
         \cup (IF e.lvl = 2 /\ c \notin SetOf(e.dec) THEN {<<"C20", "wrong-key">>, <<"C14", "unreadable">>, <<"C21", "unreadable">>} ELSE {})
         \cup (IF e.lvl > 0 /\ ~es.unsure /\ (e.boots # BootsNow(es) \/ e.time # TimeNow(es, e.now))
               THEN {IF es.auth THEN <<"C19", "estimate">> ELSE IF es.known THEN <<"C17", "hint">> ELSE <<"C19", "unknown-engine">>} \cup {<<"C14", "boots-and-time">>}
                    \cup (IF es.auth THEN {<<"C18", "time-disturbed">>} ELSE {}) ELSE {})
         \cup (IF e.lvl = 2 /\ <<c, e.engine, e.iv>> \in st.ivs THEN {<<"C21", "iv-reused">>} ELSE {})
OutStep(st, e) == IF e.out = "ok" /\ e.lvl = 2 THEN [st EXCEPT !.ivs = @ \cup {<<Cfg(st, e.engine, e.user), e.engine, e.iv>>}] ELSE st

Violated(st, e) ==
    CASE e.k = "adduser"  -> AddBad(st, e)
      [] e.k = "defuser"  -> DefBad(st, e)
      [] e.k = "deflevel" -> LvlBad(st, e)
      [] e.k = "assign"   -> AssignBad(st, e)
      [] e.k = "release"  -> IF e.exc = "" \/ st.n[e.engine] = 0 THEN {} ELSE {<<"C20", "release">>}
      [] e.k = "in"       -> InBad(st, e)
      [] e.k = "out"      -> OutBad(st, e)
      [] OTHER -> {<<"SPEC", "event">>}
Step(st, e) ==
    CASE e.k = "adduser" -> AddStep(st, e)
      [] e.k = "assign"  -> AssignStep(st, e)
      [] e.k = "release" -> ReleaseStep(st, e)
      [] e.k = "in"      -> InStep(st, e)
      [] e.k = "out"     -> OutStep(st, e)
      [] OTHER -> st
=============================================================================
