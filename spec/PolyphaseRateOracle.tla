-------------------------- MODULE PolyphaseRateOracle --------------------------
EXTENDS PolyphaseRate, Oracle

XInit(cfg) == PpInit(cfg.p, cfg.q)
XStep(cfg, s, e) ==
    CASE e.op = "filter" -> LET r == PpChunk(s, e.x) IN [st |-> r.s, y |-> r.y]
      [] e.op = "rate" -> [st |-> PpRate(s, e.x[1], e.x[2]), y |-> <<>>]
      [] e.op = "state" -> [st |-> PpState(s, e.x), y |-> <<>>]
      [] e.op = "reset" -> [st |-> PpReset(s, e.x[1]), y |-> <<>>]
      [] OTHER -> [st |-> s, y |-> <<>>]
=============================================================================
