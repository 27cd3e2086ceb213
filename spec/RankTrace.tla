------------------------------ MODULE RankTrace ------------------------------
EXTENDS Rank, TraceCheck

RInit(cfg) == RankInit(cfg.order, cfg.index)
Huge(u) == Abs(u[1]) > 20000 \/ Abs(u[2]) > 20000
RStep(cfg, q, e) ==
    CASE e.op = "index" ->
              LET k == e.x[1][1]
              IN IF k \in 0..cfg.order THEN [st |-> [q EXCEPT !.k = k], v |-> IF e.e = "" THEN "ok" ELSE "an index in range is accepted"]
                 ELSE [st |-> q, v |-> IF e.e # "" THEN "ok" ELSE "an index out of range is rejected"]
      [] e.op = "reset" -> [st |-> [q EXCEPT !.w = CFill(Len(q.w), e.x[1])], v |-> IF e.e = "" THEN "ok" ELSE "reset raised an error"]
      [] e.op = "filter" ->
              IF e.e # "" THEN [st |-> q, v |-> "call raised an error"]
              ELSE LET ws == Windows(q.w, e.x)
                   IN [st |-> [q EXCEPT !.w = ws[Len(ws)]],
                       v |-> IF Len(e.y) # Len(e.x) THEN "output length is input length"
                             ELSE IF \E i \in DOMAIN ws : Huge(e.y[i]) \/ ~ RankMember(ws[i], e.y[i]) THEN "output is a member of the window"
                             ELSE IF \E i \in DOMAIN ws : ~ RankOK(ws[i], q.k, e.y[i]) THEN "output has the specified rank in its window" ELSE "ok"]
      [] e.op = "read" -> [st |-> q, v |-> IF e.e = "" /\ e.y = <<<<q.k, 0>>>> THEN "ok" ELSE "index reads as set"]
      [] OTHER -> [st |-> q, v |-> "unknown event"]
=============================================================================
