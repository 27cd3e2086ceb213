---------------------------- MODULE FourierOracle ----------------------------
EXTENDS Fourier, Oracle

XInit(cfg) == 0
XStep(cfg, q, e) ==
    [st |-> q, y |-> IF ~ FoAccepted(e.b, e.x) THEN [accept |-> FALSE, y |-> <<>>, k |-> <<>>, r |-> <<>>]
                     \* A long transform: the terms of the values at the places asked for, orders counted from the first.
                     ELSE IF "at" \in DOMAIN e THEN
                         [accept |-> TRUE, k |-> <<>>, r |-> FoRecovered(e.b),
                          y |-> [a \in 1..Len(e.at) |-> IF e.inverse THEN FoInverseTerms(e.b, e.x, e.at[a]) ELSE FoForwardTerms(e.b, e.x, e.at[a] - 1 - (Len(e.b) \div 2))]]
                     ELSE [accept |-> TRUE, y |-> IF e.inverse THEN FoInverse(e.b, e.x) ELSE FoForward(e.b, e.x), k |-> FoOrders(Len(e.b)), r |-> FoRecovered(e.b)]]
=============================================================================
