----------------------------- MODULE IntegralTrace -----------------------------
(* Weights are learned from the observed response to an impulse, judged, and then bind every later output.            *)
EXTENDS Integral, TraceCheck

NInit(cfg) == [w |-> <<>>, q |-> IntInit(cfg.order)]

NStep(cfg, q, e) ==
    IF e.op = "reject" THEN [st |-> q, v |-> IF e.e = "ValueError" THEN "ok" ELSE "unsupported order is rejected"]
    ELSE IF e.e # "" THEN [st |-> q, v |-> "call raised an error"]
    ELSE CASE e.op = "learn" ->
              LET y == e.y
                  w == [i \in 1..(cfg.order + 1) |-> IF i = 1 THEN y[1][1] ELSE y[i][1] - y[i - 1][1]]
              IN [st |-> [w |-> IF Len(e.y) = Len(e.x) THEN w ELSE <<>>, q |-> IntInit(cfg.order)],
                  v |-> IF Len(e.y) # Len(e.x) THEN "output length is input length"
                        ELSE IF \E i \in 1..Len(y) : y[i][2] # 0 \/ Abs(y[i][1]) > 100000 THEN "weights are not exact"
                        ELSE IF ~ NonNegative(w) THEN "weights are non-negative"
                        ELSE IF ~ Symmetric(w) THEN "weights are symmetric"
                        ELSE IF ~ UnitSum(w) THEN "weights sum to one"
                        ELSE IF ~ Quadrature(w, cfg.order) THEN "weights are the quadrature rule of the order"
                        ELSE IF \E i \in (cfg.order + 1)..Len(y) : y[i] # <<K, 0>> THEN "output holds the sum"
                        ELSE "ok"]
           [] e.op = "filter" ->
              LET r == IntChunk(q.w, q.q, e.x)
              IN [st |-> [q EXCEPT !.q = r.q],
                  v |-> IF Len(e.y) # Len(e.x) THEN "output length is input length"
                        ELSE IF e.y # r.y THEN "output is the running sum of smoothed samples" ELSE "ok"]
           [] OTHER -> [st |-> q, v |-> "unknown event"]
=============================================================================
