------------------------------- MODULE GraphTrace -------------------------------
(* Decides recorded round trips: the graph presented, the graph decoded, and the graph presented looked at again.    *)
EXTENDS Graph, TraceCheck

XInit(cfg) == 0
XStep(cfg, s, e) ==
    [st |-> s + 1,
     v |-> IF e.e # "" THEN "a round trip raised an error"
           ELSE IF ~e.text THEN "the encoding is not text in the Base-85 alphabet"
           ELSE IF ~e.wire THEN "the encoding is not the documented format: a serialized value, compressed with gzip where asked"
           ELSE IF Tokens(e.g) # Tokens(e.h) THEN "the decoded value differs"
           ELSE IF Tokens(e.g) # Tokens(e.again) THEN "encoding changed the value"
           ELSE IF Tokens(e.g) # Tokens(e.second) THEN "decoding again gives another value"
           ELSE "ok"]
=============================================================================
