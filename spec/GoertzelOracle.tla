---------------------------- MODULE GoertzelOracle ----------------------------
EXTENDS Goertzel, Oracle

XInit(cfg) == GoInit(cfg.m)
XStep(cfg, q, e) ==
    IF e.op = "filter" THEN LET r == IF cfg.long THEN GoChunkTerms(cfg.L, cfg.w, cfg.u, q, e.x) ELSE GoChunk(cfg.L, cfg.w, cfg.u, q, e.x) IN [st |-> r.q, y |-> r.y]
    ELSE [st |-> [q EXCEPT !.m = e.m], y |-> <<>>]
=============================================================================
