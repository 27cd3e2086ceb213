------------------------------- MODULE Integral -------------------------------
(* Discrete integrals: a running sum of samples smoothed by quadrature weights.  Weights are integers over K.          *)
(* State: the running sum of smoothed samples (times K), and the last order + 1 samples.                              *)
EXTENDS Gauss

K == 360
RECURSIVE IPow(_, _)
IPow(a, n) == IF n = 0 THEN 1 ELSE a * IPow(a, n - 1)

ISum(w) == FoldLeft(LAMBDA acc, v : acc + v, 0, w)
\* Closed Newton-Cotes: exact for the integral over [0, order] of every power up to order (order + 1 by symmetry).
Quadrature(w, order) ==
    IF order = 0 THEN w = <<K>>
    ELSE \A m \in 0..order :
             (m + 1) * FoldLeftDomain(LAMBDA acc, i : acc + w[i] * IPow(i - 1, m), 0, w) = K * IPow(order, m)
NonNegative(w) == \A i \in 1..Len(w) : w[i] >= 0
Symmetric(w) == \A i \in 1..Len(w) : w[i] = w[Len(w) + 1 - i]
UnitSum(w) == ISum(w) = K

IntInit(order) == [sum |-> Z, s |-> CZeros(order + 1)]
IntSample(w, q, x) == LET s == CShift(q.s, x)
                          v == FoldLeftDomain(LAMBDA acc, i : CAdd(acc, CScale(w[i], s[i])), q.sum, w)
                      IN [sum |-> v, s |-> s]
IntChunk(w, q, x) ==
    FoldLeft(LAMBDA acc, u : LET n == IntSample(w, acc.q, u) IN [q |-> n, y |-> Append(acc.y, n.sum)],
             [q |-> q, y |-> <<>>], x)
=============================================================================
