---------------------------- MODULE PrototypeOracle ----------------------------
EXTENDS Prototype, Oracle

XInit(cfg) == 0
XStep(cfg, q, e) ==
    [st |-> q,
     y |-> CASE e.op = "taps" -> Taps(cfg.style, cfg.order)
             [] e.op = "zeros" -> Zeros(cfg.order, cfg.complement)
             [] e.op = "poles" -> Reverses(cfg.order)
             \* Values of the Chebyshev polynomial at the points p / q, over q to the order.
             [] OTHER -> [i \in 1..Len(e.p) |-> ChebyshevAt(cfg.order, e.p[i], e.q)]]
=============================================================================
