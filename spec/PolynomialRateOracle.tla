------------------------- MODULE PolynomialRateOracle -------------------------
EXTENDS PolynomialRate, Oracle

XInit(cfg) == [p |-> cfg.p, q |-> cfg.q, order |-> cfg.order]
XStep(cfg, s, e) ==
    CASE e.op = "filter" -> [st |-> s, y |-> IF e.dim # 1 \/ Len(e.x) < 2 THEN [ok |-> FALSE, y |-> <<>>, d |-> 1, c |-> {}]
                                             ELSE [ok |-> TRUE, y |-> PrValues(e.x, s.p, s.q, s.order), d |-> Den(s.p, s.order), c |-> Counts(Len(e.x), s.p, s.q)]]
      [] e.op = "rate" -> [st |-> IF e.x[1] < 0 THEN s ELSE [s EXCEPT !.p = e.x[1], !.q = e.x[2]], y |-> [ok |-> e.x[1] >= 0]]
      [] e.op = "order" -> [st |-> IF e.x[1] < 1 THEN s ELSE [s EXCEPT !.order = e.x[1]], y |-> [ok |-> e.x[1] >= 1]]
=============================================================================
