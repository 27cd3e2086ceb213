--------------------------- MODULE ZTransformOracle ---------------------------
EXTENDS ZTransform, Oracle

XInit(cfg) == 0
XStep(cfg, q, e) ==
    [st |-> q,
     y |-> CASE e.kind = "bilinear" -> [u |-> ZtPolynomial(e.poles), v |-> ZtPolynomial(e.zeros), r |-> ZtBilinear(e.tau, e.poles, e.zeros)]
             [] e.kind = "impulse" -> [u |-> ZtPolynomial([i \in 1..Len(e.k) |-> <<-e.k[i], 0>>]), v |-> ZtPolynomial([i \in 1..Len(e.m) |-> <<-e.m[i], 0>>]),
                                       r |-> ZtImpulse(e.k, e.m)]
             [] e.kind = "many" -> [u |-> [i \in 1..Len(e.mods) |-> MPolynomial(e.mods[i], e.poles)], v |-> [i \in 1..Len(e.mods) |-> MPolynomial(e.mods[i], e.zeros)],
                                    r |-> [i \in 1..Len(e.mods) |-> IF e.tau > 0 THEN MBilinear(e.mods[i], e.tau, e.poles, e.zeros)
                                              ELSE MImpulse(e.mods[i], [j \in 1..Len(e.poles) |-> - e.poles[j][1]], [j \in 1..Len(e.zeros) |-> - e.zeros[j][1]])]]
             [] OTHER -> [u |-> <<>>, v |-> <<>>, r |-> ZtPair(e.k[1])]]
=============================================================================
