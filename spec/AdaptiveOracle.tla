---------------------------- MODULE AdaptiveOracle ----------------------------
EXTENDS Adaptive, Oracle

XInit(cfg) == AdInit(cfg.kind, cfg.L, cfg.m, cfg.rn, cfg.rd)
XStep(cfg, q, e) ==
    CASE e.op = "filter" ->
            LET r == AdChunk(cfg.kind, cfg.L, q, [i \in 1..Len(e.x) |-> Sample(cfg.kind, cfg.L, e.x[i])]) IN [st |-> r.q, y |-> r.y]
      [] e.op = "real" ->
            \* The analytic signal carries the factor n: coefficients are taken over n D.
            LET n == Len(e.x)
                z == Analytic(cfg.L, e.x)
                r == AdChunk(cfg.kind, cfg.L, [q EXCEPT !.B = CyScale(Re(n), q.B)], z)
            IN IF cfg.kind = "band" THEN [st |-> [r.q EXCEPT !.D = n * r.q.D], y |-> [i \in 1..n |-> [r.y[i] EXCEPT !.D = n * r.y[i].D]]]
               ELSE [st |-> q, y |-> z]
      [] e.op = "rate" -> [st |-> [q EXCEPT !.rn = e.x[1], !.rd = e.x[2]], y |-> <<>>]
      [] e.op = "frequency" -> [st |-> AdRetune(cfg.kind, cfg.L, q, e.x[1]), y |-> <<>>]
      [] e.op = "reset" -> [st |-> [q EXCEPT !.s = IF e.x[1] = 0 THEN CyOne(cfg.L) ELSE CyMono(cfg.L, e.x[2], One)], y |-> <<>>]
      [] OTHER -> [st |-> q, y |-> <<>>]
=============================================================================
