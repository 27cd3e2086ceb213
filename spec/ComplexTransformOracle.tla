------------------------ MODULE ComplexTransformOracle ------------------------
EXTENDS ComplexTransform, Oracle

XInit(cfg) == 0
XStep(cfg, q, e) ==
    [st |-> q,
     y |-> IF ~ Accepted(e.shape) THEN [accept |-> FALSE, three |-> FALSE, y |-> <<>>]
           ELSE [accept |-> TRUE, three |-> ThreePhase(e.shape),
                 y |-> [i \in 1..Len(e.x) |-> IF ThreePhase(e.shape) THEN Forward(e.neutral, e.x[i]) ELSE Backward(e.neutral, e.x[i])]]]
=============================================================================
