------------------------------- MODULE MuxModel -------------------------------
(***************************************************************************)
(* A design of the multiplexor over level-triggered readiness: poll says   *)
(* which sockets (and the stop pipe, 0) are readable; each is served once; *)
(* listen ends after a round in which the pipe was read.  Around it, peers *)
(* that send at any moment, kernels that discard a broken datagram after   *)
(* reporting it, and an application that stops, registers and restarts.    *)
(* Every step emits the events of module Mux.  Behaviours are replayed     *)
(* against both implementations.                                           *)
(***************************************************************************)
EXTENDS Mux, TLC, Json
CONSTANTS NS, ND, NL,    \* sockets, datagrams, listen calls

          Keep
VARIABLES pc, ready, done, kq, pipe, nd, nl, asked, cs, bad, hist
vars == <<pc, ready, done, kq, pipe, nd, nl, asked, cs, bad, hist>>
view == <<pc, ready, done, kq, pipe, nd, nl, asked, cs, bad>>
Init == /\ pc = "out" /\ ready = {} /\ done = FALSE /\ kq = [s \in 1..NS |-> <<>>] /\ pipe = 0 /\ nd = 0 /\ nl = 0 /\ asked = FALSE
        /\ cs = Step(InitSt([ns |-> NS]), [k |-> "reg", s |-> 1, exc |-> ""]) /\ bad = {} /\ hist = <<>>
Emit(e) == bad' = bad \cup Violated(cs, e) /\ cs' = Step(cs, e)
Silent == UNCHANGED <<cs, bad>>
Rec(x) == hist' = IF Keep THEN Append(hist, x) ELSE hist

(* ---- the environment ---- *)
Arrive == /\ nd < ND
          /\ \E s \in 1..NS, broken \in BOOLEAN :
               /\ nd' = nd + 1 /\ kq' = [kq EXCEPT ![s] = Append(@, <<nd + 1, broken>>)]
               /\ Emit([k |-> "send", s |-> s, d |-> nd + 1, opt |-> broken])
               /\ Rec([a |-> "arrive", s |-> s, broken |-> broken])
          /\ UNCHANGED <<pc, ready, done, pipe, nl, asked>>
Stop == /\ pc # "out" /\ ~asked
        /\ pipe' = pipe + 1 /\ asked' = TRUE
        /\ Emit([k |-> "stop", exc |-> ""]) /\ Rec([a |-> "stop", s |-> 0, broken |-> FALSE])
        /\ UNCHANGED <<pc, ready, done, kq, nd, nl>>
Register == /\ pc = "out" /\ \E s \in 2..NS : /\ ~cs.sock[s].reg
                                              /\ Emit([k |-> "reg", s |-> s, exc |-> ""]) /\ Rec([a |-> "reg", s |-> s, broken |-> FALSE])
            /\ UNCHANGED <<pc, ready, done, kq, pipe, nd, nl, asked>>
Listen == /\ pc = "out" /\ nl < NL
          /\ pc' = "poll" /\ done' = FALSE /\ nl' = nl + 1
          /\ Emit([k |-> "listen"]) /\ Rec([a |-> "listen", s |-> 0, broken |-> FALSE])
          /\ UNCHANGED <<ready, kq, pipe, nd, asked>>

(* ---- the design ---- *)
Readable == {s \in Registered(cs) : kq[s] # <<>>} \cup (IF pipe > 0 THEN {0} ELSE {})
Poll == /\ pc = "poll" /\ Readable # {}
        /\ ready' = Readable /\ pc' = "work"
        /\ Silent /\ Rec([a |-> "point", s |-> 0, broken |-> FALSE]) /\ UNCHANGED <<done, kq, pipe, nd, nl, asked>>
Serve == /\ pc = "work" /\ ready # {}
         /\ \E f \in ready :
              /\ ready' = ready \ {f}
              /\ IF f = 0 THEN pipe' = pipe - 1 /\ done' = TRUE /\ UNCHANGED kq /\ Silent /\ UNCHANGED hist
                 ELSE /\ UNCHANGED <<pipe, done>>
                      /\ kq' = [kq EXCEPT ![f] = Tail(@)]
                      /\ IF Head(kq[f])[2] THEN Silent ELSE Emit([k |-> "hear", s |-> f, d |-> Head(kq[f])[1], from |-> TRUE])
                      /\ Rec([a |-> "point", s |-> f, broken |-> FALSE])
         /\ UNCHANGED <<pc, nd, nl, asked>>
Again == /\ pc = "work" /\ ready = {}
         /\ IF done THEN pc' = "out" /\ asked' = FALSE /\ Emit([k |-> "ret", exc |-> ""]) /\ Rec([a |-> "ret", s |-> 0, broken |-> FALSE])
            ELSE pc' = "poll" /\ UNCHANGED <<asked, hist>> /\ Silent
         /\ UNCHANGED <<ready, done, kq, pipe, nd, nl>>
System == Poll \/ Serve \/ Again
Next == Arrive \/ Stop \/ Register \/ Listen \/ System
Spec == Init /\ [][Next]_vars /\ WF_vars(System)

Contract == bad = {}
(* at rest, nothing that was heard is still in a socket, and nothing in a socket was heard; in order *)
Conserved == \A s \in 1..NS : cs.sock[s].reg => LET keep == SelectSeq(cs.sock[s].q, LAMBDA x : ~x[2]) IN keep = SelectSeq(kq[s], LAMBDA x : ~x[2])
Stops == (pc # "out" /\ asked) ~> (pc = "out")
Delivers == \A s \in 1..NS : (pc # "out" /\ cs.sock[s].reg /\ kq[s] # <<>>) ~> (kq[s] = <<>> \/ pc = "out" \/ nd < ND)
Export == (Keep /\ nl = NL /\ nd = ND /\ pc = "out") => PrintT("SCN " \o ToJson(hist))
=============================================================================
