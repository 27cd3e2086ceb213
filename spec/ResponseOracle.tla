---------------------------- MODULE ResponseOracle ----------------------------
EXTENDS Response, Oracle

XInit(cfg) == 0
XStep(cfg, q, e) ==
    [st |-> q,
     y |-> CASE e.kind = "roots" -> [b |-> PFromRoots(e.zeros), a |-> PFromRoots(e.poles), zeros |-> Repeat(e.zeros, e.count), poles |-> Repeat(e.poles, e.count)]
             \* A long response: terms at the places asked for.
             [] "at" \in DOMAIN e ->
                         LET n == e.n
                             k == [i \in 1..Len(e.at) |-> e.at[i] - 1 - (n \div 2)]
                             den == ReDenominator(e.d, e.a)
                             m == Len(e.at)
                         IN [v |-> [i \in 1..m |-> ReValueTerms(n, e.b, k[i])], dv |-> [i \in 1..m |-> ReValueTerms(n, den, k[i])],
                             s |-> [i \in 1..m |-> ReSlopeTerms(n, e.b, k[i])], ds |-> [i \in 1..m |-> ReSlopeTerms(n, den, k[i])]]
             [] OTHER -> LET n == e.n
                             k == ReOrders(n)
                             den == ReDenominator(e.d, e.a)
                         IN [v |-> [i \in 1..n |-> ReValue(n, e.b, k[i])], dv |-> [i \in 1..n |-> ReValue(n, den, k[i])],
                             s |-> IF e.kind = "delay" THEN [i \in 1..n |-> ReSlope(n, e.b, k[i])] ELSE <<>>,
                             ds |-> IF e.kind = "delay" THEN [i \in 1..n |-> ReSlope(n, den, k[i])] ELSE <<>>]]
=============================================================================
