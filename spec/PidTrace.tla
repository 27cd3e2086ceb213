------------------------------- MODULE PidTrace -------------------------------
EXTENDS Pid, TraceCheck

PInit(cfg) == PidInit
PStep(cfg, q, e) ==
    CASE e.op = "limit" ->
              IF e.x[1][1] < 0
              THEN [st |-> q, v |-> IF e.e = "ValueError" THEN "ok" ELSE "a negative limit is rejected"]
              ELSE [st |-> [q EXCEPT !.limit = e.x[1][1]], v |-> IF e.e = "" THEN "ok" ELSE "limit raised an error"]
      [] e.op = "nolimit" -> [st |-> [q EXCEPT !.limit = -1], v |-> IF e.e = "" THEN "ok" ELSE "limit raised an error"]
      [] e.op = "reset" -> [st |-> [q EXCEPT !.p = e.x[1], !.i = e.x[1]], v |-> IF e.e = "" THEN "ok" ELSE "reset raised an error"]
      [] e.op = "filter" ->
              IF e.e # "" THEN [st |-> q, v |-> "call raised an error"]
              ELSE LET r == PidChunk(cfg.b, q, e.x)
                   IN [st |-> r.q,
                       v |-> IF Len(e.y) # Len(e.x) THEN "output length is input length"
                             ELSE IF e.y # r.y THEN "output is the sum of proportional, limited integral and difference terms"
                             ELSE "ok"]
      [] OTHER -> [st |-> q, v |-> "unknown event"]
=============================================================================
