------------------------------- MODULE IirTrace -------------------------------
EXTENDS Iir, TraceCheck

IInit(cfg) == [a |-> IirA(cfg), b |-> IirB(cfg), w |-> IirInit(cfg)]

IStep(cfg, q, e) ==
    CASE e.op = "filter" ->
              IF e.e # "" THEN [st |-> q, v |-> "call raised an error"]
              ELSE LET r == IirChunk(q.a, q.b, q.w, e.x)
              IN [st |-> [q EXCEPT !.w = r.w],
                  v |-> IF Len(e.y) # Len(e.x) THEN "output length is input length"
                        ELSE IF e.y # r.y THEN "output satisfies the difference equation" ELSE "ok"]
      [] e.op = "reset" ->
              IF e.e # "" THEN [st |-> q, v |-> "reset raised an error"]
              ELSE IF ~ (Unity(q.a, q.b) /\ Divisible(q.a, e.x[1])) THEN [st |-> q, v |-> "reset outside the model"]
              ELSE [st |-> [q EXCEPT !.w = IirReset(q.a, q.w, e.x[1])], v |-> "ok"]
      [] e.op = "coefficient" -> [st |-> [q EXCEPT !.a = e.a, !.b = e.b],
                                  v |-> IF e.e # "" THEN "coefficient change raised an error" ELSE "ok"]
      [] e.op = "continue" -> [st |-> [q EXCEPT !.a = CPad(q.a, Len(q.a) + e.n), !.b = CPad(q.b, Len(q.b) + e.n), !.w = q.w \o CZeros(e.n)],
                               v |-> IF e.e # "" THEN "a filter constructed from the state of another raised an error" ELSE "ok"]
      [] OTHER -> [st |-> q, v |-> "unknown event"]
=============================================================================
