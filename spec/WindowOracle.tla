----------------------------- MODULE WindowOracle -----------------------------
EXTENDS Window, Oracle

XInit(cfg) == 0
XStep(cfg, q, e) ==
    [st |-> q,
     \* The terms of every coefficient of a window.
     y |-> IF e.op = "window" THEN [accept |-> TRUE, y |-> <<>>, w |-> IF cfg.style = "Kaiser" THEN KaiserArguments(cfg.order) ELSE [i \in 1..cfg.order + 1 |-> CoefficientTerms(cfg.style, cfg.order, i - 1)]]
           ELSE IF ~ Accepted(cfg.order, e) THEN [accept |-> FALSE, y |-> <<>>, w |-> <<>>]
           ELSE [accept |-> TRUE,
                 y |-> IF cfg.style = "Kaiser" THEN [i \in 1..cfg.order + 1 |-> <<e.x[i], KaiserArgument(cfg.order, i - 1)>>]
                       ELSE [i \in 1..cfg.order + 1 |-> CyScale(e.x[i], Coefficient(cfg.style, cfg.order, i - 1))],
                 w |-> <<>>]]
=============================================================================
