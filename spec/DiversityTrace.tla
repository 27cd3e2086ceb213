----------------------------- MODULE DiversityTrace -----------------------------
(* The state is the set of members the model may hold: ties are resolved by what is observed.                         *)
EXTENDS Diversity, TraceCheck

DInit(cfg) == [ms |-> {<<>>}, dim |-> 0]
\* Observed members beyond those filled are absent.
DStep(cfg, q, e) ==
    CASE e.op = "clear" -> [st |-> [ms |-> {<<>>}, dim |-> 0], v |-> IF e.e # "" THEN "clear raised an error" ELSE IF e.s # <<>> THEN "clear forgets every member" ELSE "ok"]
      [] e.op = "bad" -> [st |-> q, v |-> IF e.e = "" THEN "a signal of another shape is rejected" ELSE IF e.s # <<>> /\ e.s \notin q.ms THEN "a rejected signal has no effect" ELSE "ok"]
      [] e.op = "fit" ->
            IF e.e # "" THEN [st |-> q, v |-> "fit raised an error"]
            ELSE IF Len(e.y) # Len(e.x) THEN [st |-> q, v |-> "one diversity per sample"]
            ELSE LET out == DvReported(cfg.style, cfg.size, q.ms, e.x, e.y)
                 IN [st |-> [ms |-> {e.s}, dim |-> Len(e.x[1])],
                     v |-> IF out = {} THEN "the reported diversity is the minimum pairwise distance"
                           ELSE IF e.s \notin out THEN "the retained members are the most diverse" ELSE "ok"]
      [] e.op = "assign" ->
            [st |-> [ms |-> {e.x}, dim |-> Len(e.x[1])], v |-> IF e.e # "" THEN "assignment raised an error" ELSE IF e.s # e.x THEN "assigned samples are those retained" ELSE "ok"]
      [] OTHER -> [st |-> q, v |-> "unknown event"]
=============================================================================
