---------------------------------- MODULE Mux ----------------------------------
(***************************************************************************)
(* What may be observed of a datagram multiplexor: registration, the       *)
(* datagrams sent to its sockets, the calls of its listener, stop, the     *)
(* return of listen, and close.                                            *)
(* Violated(st, e) names the clauses that event e breaks; Step is total.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(* a socket: registered or not, and what has been sent to it and not yet been heard: <<datagram, optional>>.  *)
(* lo..hi: how many requests to stop are certainly, possibly pending *)
InitSt(t) == [sock |-> [s \in 1..t.ns |-> [reg |-> FALSE, q |-> <<>>]], run |-> FALSE, lo |-> 0, hi |-> 0, closed |-> FALSE, heard |-> {}]

Registered(st) == {s \in DOMAIN st.sock : st.sock[s].reg}
At(q, d) == {i \in 1..Len(q) : q[i][1] = d}
From(q, i) == SubSeq(q, i + 1, Len(q))
(* an optional datagram (longer than the receive size, or found broken by the kernel) may be passed over *)
HearBad(st, e) ==
    IF ~st.run THEN {"C23.heard-while-stopped"}
    ELSE IF ~st.sock[e.s].reg THEN {"C23.wrong-socket"}
    ELSE LET q == st.sock[e.s].q
             p == At(q, e.d) IN
    IF e.d = 0 THEN {"C23.altered-or-invented"}
    ELSE IF p = {} THEN (IF e.d \in st.heard THEN {"C23.heard-twice"} ELSE {"C23.wrong-socket"})
    ELSE LET i == CHOOSE j \in p : TRUE IN
         (IF \E j \in 1..(i - 1) : ~q[j][2] THEN {"C23.out-of-order"} ELSE {})
         \cup (IF ~e.from THEN {"C23.sender"} ELSE {})
HearStep(st, e) == LET p == At(st.sock[e.s].q, e.d) IN
                   IF p = {} THEN st ELSE [st EXCEPT !.sock[e.s].q = From(@, CHOOSE i \in p : TRUE), !.heard = @ \cup {e.d}]
RetBad(st, e) == (IF e.exc # "" THEN {"C23.exception"} ELSE {})
                 \cup (IF e.exc = "" /\ st.hi = 0 /\ Registered(st) # {} THEN {"C23.returned-unasked"} ELSE {})
Waiting(st) == {s \in Registered(st) : \E i \in 1..Len(st.sock[s].q) : ~st.sock[s].q[i][2]}

Violated(st, e) ==
    CASE e.k = "reg"    -> IF e.exc # "" THEN {"C23.exception"} ELSE {}
      [] e.k = "send"   -> {}
      [] e.k = "listen" -> {}
      [] e.k = "hear"   -> HearBad(st, e)
      [] e.k = "stop"   -> IF e.exc # "" THEN {"C23.exception"} ELSE {}
      [] e.k = "ret"    -> RetBad(st, e)
      \* listening for long without a further call of the listener
      [] e.k = "quiet"  -> IF st.run /\ st.lo = 0 /\ Waiting(st) # {} THEN {"C23.lost"} ELSE {}
      \* asked to stop, and still listening after a long time
      [] e.k = "stuck"  -> IF st.lo > 0 THEN {"C23.does-not-stop"} ELSE {}
      [] e.k = "close"  -> IF e.exc # "" THEN {"C23.exception"} ELSE {}
      [] e.k = "closed" -> IF st.closed /\ st.sock[e.s].reg /\ ~e.closed THEN {"C23.left-open"} ELSE {}
      [] OTHER -> {"SPEC.event"}
Step(st, e) ==
    CASE e.k = "reg"    -> [st EXCEPT !.sock[e.s].reg = TRUE]
      [] e.k = "send"   -> [st EXCEPT !.sock[e.s].q = Append(@, <<e.d, e.opt>>)]
      [] e.k = "listen" -> [st EXCEPT !.run = TRUE]
      [] e.k = "hear"   -> HearStep(st, e)
      [] e.k = "stop"   -> [st EXCEPT !.hi = @ + 1, !.lo = IF st.run THEN 1 ELSE @]
      [] e.k = "ret"    -> [st EXCEPT !.run = FALSE, !.lo = 0, !.hi = IF @ = 0 THEN 0 ELSE @ - 1]
      [] e.k = "close"  -> [st EXCEPT !.closed = TRUE]
      [] OTHER -> st
=============================================================================
