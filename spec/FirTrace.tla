------------------------------- MODULE FirTrace -------------------------------
(* Decides recorded traces of real FIR filters.  An event is a call of filter (chunk x, observed y, or e: an error), *)
(* of reset, or a replacement of the coefficients.                                                                   *)
EXTENDS Fir, TraceCheck

FInit(cfg) == [b |-> FirB(cfg), s |-> FirInit(cfg)]

FStep(cfg, q, e) ==
    IF e.e # "" THEN [st |-> q, v |-> "call raised an error"]
    ELSE CASE e.op = "filter" ->
              LET r == FirChunk(q.b, q.s, e.x)
              IN [st |-> [q EXCEPT !.s = r.s],
                  v |-> IF Len(e.y) # Len(e.x) THEN "output length is input length"
                        ELSE IF e.y # r.y THEN "output is the convolution of coefficients and past samples" ELSE "ok"]
           [] e.op = "reset" -> [st |-> [q EXCEPT !.s = CFill(Len(q.s), e.x[1])], v |-> "ok"]
           [] e.op = "coefficient" -> [st |-> [q EXCEPT !.b = e.x], v |-> "ok"]
           [] OTHER -> [st |-> q, v |-> "unknown event"]
=============================================================================
