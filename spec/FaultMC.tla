-------------------------------- MODULE FaultMC --------------------------------
(* Every history of bounded length of a service which behaves well or badly, called in every way.                    *)
EXTENDS Fault, Json, IOUtils, CSV

CONSTANTS Depth, Statuses, Kinds, Ops
VARIABLES h, state, heard
vars == <<h, state, heard>>

Modes == {m \in [kind : Kinds, status : Statuses] : m.kind \in (Faults \cup Partial \cup Late \cup Sent) \ {"redirect"} => m.status = 200}
\* state: what the client holds, which is nothing but its timeout; heard: how often the service read a request.
Init == h = <<>> /\ state = "usable" /\ heard = 0
Next == /\ Len(h) < Depth
        /\ \E m \in Modes, o \in Ops :
             /\ h' = Append(h, [op |-> o, kind |-> m.kind, status |-> m.status])
             /\ heard' = heard + (IF m.kind \in Unheard THEN 0 ELSE 1)
             /\ state' = state

\* No behaviour is unjudged, none is both an answer and a fault, and a request that succeeds finds a live service.
Total == \A m \in Modes : /\ Alive(m) # {}
                          /\ Succeeds(m) => Alive(m) = {TRUE}
                          /\ ~(Answers(m) /\ m.kind \in Faults \cup Partial)
UsableForEver == state = "usable"
NeverTwice == heard <= Len(h)

Emit == Len(h) = Depth => CSVWrite("%1$s", <<ToJson([h |-> h])>>, IOEnv.OUT)
=============================================================================
