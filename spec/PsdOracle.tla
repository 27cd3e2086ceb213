------------------------------ MODULE PsdOracle ------------------------------
EXTENDS Psd, Oracle

XInit(cfg) == 0
XStep(cfg, q, e) ==
    [st |-> q, y |-> IF ~ PsAccepted(e.b, e.x) THEN [accept |-> FALSE, n |-> 0, k |-> <<>>, y |-> <<>>]
                     \* A long transform: the terms of u at the segments and orders asked for (pairs, both counted from one).
                     ELSE IF "at" \in DOMAIN e THEN
                         LET starts == PsStarts(Len(e.b), Len(e.x), e.stride)
                         IN [accept |-> TRUE, n |-> Len(starts), k |-> <<>>,
                             y |-> [a \in 1..Len(e.at) |-> IF e.at[a][1] > Len(starts) THEN <<>>
                                    ELSE PsTerms(e.b, SubSeq(e.x, starts[e.at[a][1]] + 1, starts[e.at[a][1]] + Len(e.b)), e.at[a][2] - 1)]]
                     ELSE [accept |-> TRUE, n |-> Len(PsStarts(Len(e.b), Len(e.x), e.stride)), k |-> PsOrders(Len(e.b)),
                           y |-> IF e.rows THEN PsRows(e.b, e.x, e.stride) ELSE <<PsSum(e.b, e.x, e.stride)>>]]
=============================================================================
