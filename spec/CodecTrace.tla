------------------------------- MODULE CodecTrace -------------------------------
(* Decides recorded operations.  x names the arguments, y the result (0: an error): equal names are equal values.     *)
(* Results never depend on what came before, and different texts have different codes.                               *)
EXTENDS Codec, TraceCheck
E0 == [x \in {} |-> 0]
Put(f, k, u) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN u ELSE f[x]]
XInit(cfg) == [known |-> E0, codes |-> E0]
XStep(cfg, s, e) ==
    LET k == <<e.op, e.x>>
    IN IF Accepted(e.op, e.class) /\ e.e # "" THEN [st |-> s, v |-> "a valid operation raised an error"]
       ELSE IF ~Accepted(e.op, e.class) /\ e.e = "" THEN [st |-> s, v |-> "an invalid operation was accepted: " \o e.class]
       ELSE IF ~Accepted(e.op, e.class) \/ e.op = "encode" THEN [st |-> s, v |-> "ok"]
       ELSE IF k \in DOMAIN s.known THEN [st |-> s, v |-> IF s.known[k] = e.y THEN "ok" ELSE "the result depends on earlier calls"]
       ELSE IF e.op = "code" /\ e.y \in DOMAIN s.codes /\ s.codes[e.y] # e.x THEN [st |-> s, v |-> "different texts have the same code"]
       ELSE [st |-> [known |-> Put(s.known, k, e.y), codes |-> IF e.op = "code" THEN Put(s.codes, e.y, e.x) ELSE s.codes], v |-> "ok"]
=============================================================================
