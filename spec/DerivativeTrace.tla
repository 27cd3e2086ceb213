---------------------------- MODULE DerivativeTrace ----------------------------
(* The stencil is not assumed: it is learned from the observed response to an impulse (event "learn"), judged by its  *)
(* moments, and the filter must then behave as a FIR filter with that stencil.                                        *)
EXTENDS Derivative, TraceCheck

DInit(cfg) == [w |-> <<>>, s |-> CZeros(cfg.order + 1)]
Re(y) == [i \in 1..Len(y) |-> y[i][1]]

DStep(cfg, q, e) ==
    IF e.op = "reject" THEN [st |-> q, v |-> IF e.e = "ValueError" THEN "ok" ELSE "unsupported pair is rejected"]
    ELSE IF e.e # "" THEN [st |-> q, v |-> "call raised an error"]
    ELSE CASE e.op = "learn" ->      \* x = impulse followed by at least order + 2 zeros
              LET y == Re(e.y)
                  w == SubSeq(y, 1, cfg.order + 1)
              IN [st |-> [w |-> [i \in 1..Len(w) |-> <<w[i], 0>>], s |-> CZeros(cfg.order + 1)],
                  v |-> IF Len(e.y) # Len(e.x) THEN "output length is input length"
                        ELSE IF \E i \in 1..Len(y) : e.y[i][2] # 0 \/ Abs(y[i]) > 100000 THEN "stencil is not exact"
                        ELSE IF \E i \in (cfg.order + 2)..Len(y) : y[i] # 0 THEN "response is longer than order + 1"
                        ELSE IF ~ Annihilates(w, cfg.derivative) THEN "polynomials of lower degree give zero"
                        ELSE IF ~ Unit(w, cfg.derivative) THEN "degree D gives D! times the leading coefficient"
                        ELSE IF ~ Central(w, cfg.derivative, cfg.order) THEN "central stencil is exact for degree D + 1"
                        ELSE "ok"]
           [] e.op = "filter" ->
              LET r == FirChunk(q.w, q.s, e.x)
              IN [st |-> [q EXCEPT !.s = r.s],
                  v |-> IF Len(e.y) # Len(e.x) THEN "output length is input length"
                        ELSE IF e.y # r.y THEN "output is the stencil applied to past samples" ELSE "ok"]
           [] e.op = "reset" -> [st |-> [q EXCEPT !.s = CFill(Len(q.s), e.x[1])], v |-> "ok"]
           [] OTHER -> [st |-> q, v |-> "unknown event"]
=============================================================================
