---------------------------- MODULE WaveletOracle ----------------------------
(* kind "plan": the passes of a transform and what each cell of a line reads, for the observed taps to be applied.    *)
(* kind "value": the exact result for integer taps whose every pass divides by two.                                   *)
EXTENDS Wavelet, Oracle

XInit(cfg) == 0
Rows(shape) == IF Len(shape) = 1 THEN 1 ELSE shape[1]
Cols(shape) == shape[Len(shape)]
XStep(cfg, q, e) ==
    [st |-> q,
     y |-> IF ~ WvAccepted(e.shape, e.count) THEN [accept |-> FALSE]
           ELSE IF e.kind = "value" THEN [accept |-> TRUE, y |-> WvTransform(<<e.h, e.g>>, e.x, e.count, e.inverse, 2)]
           ELSE LET passes == WvPasses(Rows(e.shape), Cols(e.shape), e.count, e.inverse)
                    lengths == {IF passes[i][1] = 0 THEN passes[i][3] ELSE passes[i][2] : i \in 1..Len(passes)}
                IN [accept |-> TRUE, passes |-> passes,
                    reads |-> {<<n, [i \in 1..n |-> WvReads(n, e.taps, e.inverse, i - 1)]>> : n \in lengths}]]
=============================================================================
