--------------------------------- MODULE Fir ---------------------------------
(* Finite impulse response filter.                                                                                   *)
(*                                                                                                                   *)
(* Operational model: a delay line of the last Len(b) samples, newest first.  A call presents a sequence of samples; *)
(* each sample is shifted in and produces the dot product of the coefficients and the delay line.  A reset replaces  *)
(* every entry of the delay line by one value, as if that value had been presented forever.                          *)
EXTENDS Gauss

FirInit(cfg) == CPad(cfg.s, Max2(Len(cfg.b), Len(cfg.s)))
FirB(cfg) == CPad(cfg.b, Max2(Len(cfg.b), Len(cfg.s)))

\* Filters a chunk; returns the final delay line and the outputs.
FirChunk(b, s, x) ==
    FoldLeft(LAMBDA acc, u : LET n == CShift(acc.s, u) IN [s |-> n, y |-> Append(acc.y, CDot(b, n))],
             [s |-> s, y |-> <<>>], x)
=============================================================================
