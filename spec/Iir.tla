--------------------------------- MODULE Iir ---------------------------------
(* Infinite impulse response filter.                                                                                 *)
(*                                                                                                                   *)
(* Operational model (direct form II): w is the sequence of the last N internal values, newest first; a sample x      *)
(* gives w_n = x + sum a_i w_{n-i} and y_n = b_0 w_n + sum b_i w_{n-i}.                                              *)
(* Declarative meaning (checked in IirMC): y_n = sum a_i y_{n-i} + sum b_i x_{n-i}.                                  *)
EXTENDS Gauss

IirN(cfg) == Max2(Len(cfg.a), Len(cfg.b))
IirA(cfg) == CPad(cfg.a, IirN(cfg))
IirB(cfg) == CPad(cfg.b, IirN(cfg))
IirInit(cfg) == CZeros(IirN(cfg) - 1)

IirSample(a, b, w, x) ==
    LET n == Len(w)
        r == FoldLeftDomain(LAMBDA acc, i : CAdd(acc, CMul(a[i + 1], w[i])), x, w)
        y == FoldLeftDomain(LAMBDA acc, i : CAdd(acc, CMul(b[i + 1], w[i])), CMul(b[1], r), w)
    IN [w |-> IF n = 0 THEN w ELSE CShift(w, r), y |-> y]

IirChunk(a, b, w, x) ==
    FoldLeft(LAMBDA acc, u : LET r == IirSample(a, b, acc.w, u) IN [w |-> r.w, y |-> Append(acc.y, r.y)],
             [w |-> w, y |-> <<>>], x)

\* Gain at zero frequency is one: sum b = 1 - sum a; the forward gain b_0 = 1 has no steady state of this form.
Unity(a, b) == CSum(b) = CSub(One, CSum(a)) /\ b[1] # One
\* The steady state for a constant x: w = x / (1 - sum a), defined here when real and divisible.
SteadyOf(a, x) == LET d == 1 - CSum(a)[1] IN <<x[1] \div d, x[2] \div d>>
Divisible(a, x) == /\ CSum(a)[2] = 0
                   /\ LET d == 1 - CSum(a)[1] IN d > 0 /\ x[1] % d = 0 /\ x[2] % d = 0
IirReset(a, w, x) == CFill(Len(w), SteadyOf(a, x))
=============================================================================
