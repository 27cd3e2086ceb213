------------------------------- MODULE Response -------------------------------
(* Frequency response, group delay and roots of a filter with forward coefficients b and recursive coefficients a     *)
(* (a[1] = 0), at the N frequencies 2 k / N, k from -floor(N / 2) on, as formal sums over the powers of               *)
(* zeta = exp(2 pi j / N).                                                                                            *)
EXTENDS Cyclo

ReOrders(n) == [i \in 1..n |-> i - 1 - (n \div 2)]
\* Polynomial with coefficients c in zeta^-k, and the same weighed by the power (its phase slope).
ReValueTerms(n, c, k) == [i \in 1..Len(c) |-> <<(-k * (i - 1)) % n, c[i]>>]
ReSlopeTerms(n, c, k) == [i \in 1..Len(c) |-> <<(-k * (i - 1)) % n, CScale(i - 1, c[i])>>]
ReValue(n, c, k) == CyOf(n, ReValueTerms(n, c, k))
ReSlope(n, c, k) == CyOf(n, ReSlopeTerms(n, c, k))
\* The denominator of a recursive array over d: d, -a[2], -a[3], ...  (coefficients are presented as integers over d).
ReDenominator(d, a) == [i \in 1..Len(a) |-> IF i = 1 THEN <<d, 0>> ELSE CNeg(a[i])]
RECURSIVE CyPower(_, _)
CyPower(u, n) == IF n = 1 THEN u ELSE CyMul(u, CyPower(u, n - 1))

PMul(a, b) == [i \in 1..Len(a) + Len(b) - 1 |->
                FoldLeftDomain(LAMBDA acc, j : IF i - j + 1 \in 1..Len(b) THEN CAdd(acc, CMul(a[j], b[i - j + 1])) ELSE acc, Z, a)]
PFromRoots(r) == FoldLeft(LAMBDA acc, z : PMul(acc, <<One, CNeg(z)>>), <<One>>, r)
Repeat(s, n) == FoldLeft(LAMBDA acc, i : acc \o s, <<>>, [i \in 1..n |-> i])
=============================================================================
