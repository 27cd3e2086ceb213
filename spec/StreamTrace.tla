------------------------------ MODULE StreamTrace ------------------------------
(* Decides whether runs of one signal and its controls, grouped in different ways, are equivalent.                   *)
(*   begin             a new instance                                                                                *)
(*   feed(n, y)        the next n samples were presented in one call, which returned y                               *)
(*   control           the next control was made                                                                     *)
(* Results are named by numbers; equal results have equal names.  The first run presents samples one by one, and     *)
(* defines what every atom produces.                                                                                 *)
EXTENDS Stream, TraceCheck

XInit(cfg) == [f |-> <<>>, at |-> 0, run |-> 0]
XNext(s, n) == FlattenSeq([i \in 1..n |-> s.f[s.at + i]])
XStep(cfg, s, e) ==
    CASE e.op = "begin" -> [st |-> [s EXCEPT !.at = 0, !.run = @ + 1],
                            v |-> IF s.run > 0 /\ s.at # Len(s.f) THEN "a run ended early" ELSE "ok"]
      [] e.e # "" -> [st |-> s, v |-> "a valid call raised an error"]
      [] e.op = "control" -> [st |-> [s EXCEPT !.at = @ + 1, !.f = IF s.run = 1 THEN Append(@, <<>>) ELSE @], v |-> "ok"]
      [] s.run = 1 -> [st |-> [s EXCEPT !.at = @ + 1, !.f = Append(@, e.y)], v |-> "ok"]
      [] OTHER -> [st |-> [s EXCEPT !.at = @ + e.n],
                   v |-> IF s.at + e.n > Len(s.f) THEN "too many samples"
                         ELSE IF e.y = XNext(s, e.n) THEN "ok"
                         ELSE IF Len(e.y) # Len(XNext(s, e.n)) THEN "number of outputs depends on the grouping"
                         ELSE "outputs depend on the grouping"]
=============================================================================
