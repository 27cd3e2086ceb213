----------------------- MODULE ComplexExponentialOracle -----------------------
EXTENDS ComplexExponential, Oracle

XInit(cfg) == cfg.p
XStep(cfg, p, e) ==
    CASE e.op = "filter" -> IF e.complex = 0 /\ e.x # <<>> /\ InRange(cfg.K, e.x)
                            THEN LET r == CeChunk(cfg.K, p, e.x) IN [st |-> r.p, y |-> [ok |-> TRUE, y |-> r.y, p |-> r.p]]
                            ELSE [st |-> p, y |-> [ok |-> FALSE, y |-> <<>>, p |-> p]]
      [] OTHER -> IF InRange(cfg.K, e.x) THEN [st |-> e.x[1], y |-> [ok |-> TRUE, y |-> <<>>, p |-> e.x[1]]]
                  ELSE [st |-> p, y |-> [ok |-> FALSE, y |-> <<>>, p |-> p]]
=============================================================================
