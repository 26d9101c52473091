------------------------------- MODULE UsmTime -------------------------------
(***************************************************************************)
(* RFC 3414 section 2.3 / 3.2(7): what a manager knows of a remote         *)
(* engine's boots and time, and which messages are timely.                 *)
(* An estimate is <<known, auth, boots, time, at>>: at clock tick `at` the *)
(* engine's time was `time`; auth says that this rests on an authenticated *)
(* message.  One second is TPS ticks.                                      *)
(***************************************************************************)
EXTENDS Integers
TPS == 1024
Window == 150
MaxInt == 2147483647

NoEst == [known |-> FALSE, auth |-> FALSE, boots |-> 0, time |-> 0, at |-> 0, unsure |-> FALSE]
Elapsed(es, now) == (now - es.at) \div TPS
(* the estimate of the engine's time, within the range of the protocol *)
TimeNow(es, now) == IF ~es.known THEN 0
                    ELSE IF es.time > MaxInt - Elapsed(es, now) THEN MaxInt ELSE es.time + Elapsed(es, now)
BootsNow(es) == IF es.known THEN es.boots ELSE 0
(* a message's time lags behind the estimate by at most w seconds (negative: is ahead of it) *)
Lags(es, time, now, w) == es.time - time <= w - Elapsed(es, now)
Take(es, boots, time, now, auth) == [es EXCEPT !.known = TRUE, !.auth = auth, !.boots = boots, !.time = time, !.at = now]

(* an unauthenticated message may only suggest a time where no authenticated one has spoken *)
Hint(es, boots, time, now) == IF es.auth THEN es ELSE Take(es, boots, time, now, FALSE)
(* an authenticated message moves the estimate forward, never back *)
Learn(es, boots, time, now) ==
    IF ~es.auth THEN Take(es, boots, time, now, TRUE)
    ELSE IF boots > es.boots \/ (boots = es.boots /\ Lags(es, time, now, -1)) THEN Take(es, boots, time, now, TRUE)
    ELSE es
(* after learning, is the message inside the window? *)
Timely(es, boots, time, now) == es.boots = boots /\ Lags(es, time, now, Window) /\ boots < MaxInt
=============================================================================
