-------------------------------- MODULE LogTrace --------------------------------
(* Decides recorded calls.  d is what the sinks received during a call: triples of sink, level number and identity;   *)
(* a text which is not a line of time, level and the verbatim entry has identity 0.  Sink 0 is the handler   *)
(* loguru adds by default, which the log replaces before its first entry.                                            *)
EXTENDS Log, TraceCheck
Got(d, k) == LET u == SelectSeq(d, LAMBDA x : x[1] = k) IN [i \in 1..Len(u) |-> <<u[i][2], u[i][3]>>]
XInit(cfg) == LogInit
XStep(cfg, s, e) ==
    LET r == Call(s, e)
        sinks == {e.d[i][1] : i \in 1..Len(e.d)} \cup DOMAIN r.out
        \* An entry of the application may reach the stream of the log, as loguru has one logger.
        mine == IF e.op = "native" THEN {k \in sinks : k \in DOMAIN s.nat} ELSE sinks
        Want(k) == IF k \in DOMAIN r.out THEN r.out[k] ELSE <<>>
        bad == {k \in mine : Got(e.d, k) # Want(k)}
        verdict == IF r.ok /\ e.e # "" THEN "a valid call raised an error"
                   ELSE IF ~r.ok /\ e.e = "" THEN "an invalid call was accepted"
                   ELSE IF bad = {} THEN "ok"
                   ELSE LET k == CHOOSE x \in bad : TRUE
                        IN IF \E i \in 1..Len(e.d) : e.d[i][3] = 0 THEN "a text that is not one line of time, level and entry"
                           ELSE IF k \in DOMAIN s.nat THEN "a handler of the application was disturbed"
                           ELSE IF Len(Got(e.d, k)) < Len(Want(k)) THEN "an entry was lost"
                           ELSE IF Len(Want(k)) = 0 THEN "an entry reached a stream that is not current, or below the level"
                           ELSE "an entry was repeated or has another level"
    IN [st |-> r.st, v |-> verdict]
=============================================================================
