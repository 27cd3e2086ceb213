---------------------------- MODULE GaussianOracle ----------------------------
(* The statistics of larger training sets: for every label, in increasing order, its number of samples, their sum, and *)
(* the regularized scatter matrix A of Gaussian, from which a squared distance is rd v' A^-1 v, v = n x - S.           *)
EXTENDS Gaussian, Oracle

XInit(cfg) == 0
Ordered(s) == SetToSortSeq(s, LAMBDA a, b : a < b)
XStep(cfg, q, e) ==
    LET names == Ordered(Labels(e.y))
    IN [st |-> q, y |-> [i \in 1..Len(names) |-> [label |-> names[i], s |-> Stats(Members(e.x, e.y, names[i]), cfg.r[1], cfg.r[2])]]]
=============================================================================
