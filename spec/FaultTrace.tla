------------------------------- MODULE FaultTrace -------------------------------
(* Decides recorded calls: kind and status of the service, the outcome, how often the service read a request, and     *)
(* whether the call ended in good time.                                                                              *)
EXTENDS Fault, TraceCheck
XInit(cfg) == 0
XStep(cfg, s, e) ==
    LET m == [kind |-> e.kind, status |-> e.status]
        w == IF e.late # 0 THEN "a timeout was not applied"
             ELSE IF e.heard > 1 /\ m.kind # "redirect_loop" THEN "a request was repeated"
             ELSE IF e.heard = 0 /\ m.kind \notin Unheard THEN "a request did not arrive"
             ELSE IF e.op = "live" THEN IF e.e # "" THEN "live raised an error"
                                        ELSE IF e.y \notin {1, 0} THEN "live is neither true nor false"
                                        ELSE IF (e.y = 1) \notin Alive(m) THEN IF e.y = 1 THEN "a dead service is reported alive" ELSE "a live service is reported dead"
                                        ELSE "ok"
             ELSE IF Succeeds(m) THEN IF e.e # "" THEN "a complete response raised an error"
                                      ELSE IF e.y # 1 THEN "a response lacks its status, headers or body"
                                      ELSE "ok"
             \* A request for headers alone meets no body, whole or not.
             ELSE IF e.method = "HEAD" /\ m.kind \in Partial THEN IF e.e = "" /\ e.y # 1 THEN "a response lacks its status, headers or body" ELSE "ok"
             ELSE IF e.e = "" THEN IF Answers(m) THEN "an error status was returned" ELSE "a fault was not raised" ELSE "ok"
    IN [st |-> s, v |-> w]
=============================================================================
