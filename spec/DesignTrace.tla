----------------------------- MODULE DesignTrace -----------------------------
(* A trace is one constraint and what was observed: whether construction was accepted, the design, and designs that   *)
(* are related to it: with another gain, with another letter case, and its mirror image.                              *)
EXTENDS Design, TraceCheck

XInit(cfg) == [b |-> <<>>, a |-> <<>>]
XStep(cfg, q, e) ==
    CASE e.op = "construct" -> [st |-> q, v |-> IF e.accepted = DeAccepted(cfg.c) THEN "ok" ELSE "exactly constraints outside their range are rejected"]
      [] e.op = "design" -> [st |-> [b |-> e.d.b, a |-> e.d.a], v |-> DeVerdict(cfg.c, e.d)]
      [] e.op = "gain" -> [st |-> q, v |-> IF Agree(q.b, e.d.b) /\ Agree(q.a, e.d.a) THEN "ok" ELSE "coefficients scale with the gain"]
      [] e.op = "case" -> [st |-> q, v |-> IF Agree(q.b, e.d.b) /\ Agree(q.a, e.d.a) THEN "ok" ELSE "letter case changes the design"]
      [] OTHER -> [st |-> q, v |-> IF Agree(Signs(q.b), e.d.b) /\ Agree(Signs(q.a), e.d.a) THEN "ok" ELSE "a complement mirrors the design at one minus the frequency"]
=============================================================================
