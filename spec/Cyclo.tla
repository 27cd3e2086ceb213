-------------------------------- MODULE Cyclo --------------------------------
(* The group ring Z[i][C_L]: formal sums, with Gaussian integer coefficients, of the powers of a root of unity        *)
(* zeta = exp(2 pi j / L).  Element u stands for the complex number Sum over r in 0..L-1 of u[r + 1] * zeta^r.         *)
(* Sums, products, rotations and conjugates are exact; the evaluation at zeta is a ring homomorphism to the complex   *)
(* numbers, applied by the harness only to compare with an observed number.                                           *)
EXTENDS Gauss

CyZero(n) == [r \in 1..n |-> Z]
CyMono(n, k, c) == [r \in 1..n |-> IF r - 1 = k % n THEN c ELSE Z]
CyOne(n) == CyMono(n, 0, One)
CyAdd(u, v) == [r \in 1..Len(u) |-> CAdd(u[r], v[r])]
CySub(u, v) == [r \in 1..Len(u) |-> CSub(u[r], v[r])]
CyScale(c, u) == [r \in 1..Len(u) |-> CMul(c, u[r])]
\* u * zeta^k
CyRot(u, k) == LET n == Len(u) IN [r \in 1..n |-> u[((r - 1 - k) % n) + 1]]
CyConj(u) == LET n == Len(u) IN [r \in 1..n |-> CConj(u[((1 - r) % n) + 1])]
CyMul(u, v) == LET n == Len(u) IN FoldLeftDomain(LAMBDA acc, r : IF u[r] = Z THEN acc ELSE CyAdd(acc, CyScale(u[r], CyRot(v, r - 1))), CyZero(n), u)
\* Adds c * zeta^k to u.
CyPut(u, k, c) == LET i == (k % Len(u)) + 1 IN [u EXCEPT ![i] = CAdd(u[i], c)]
\* The sum of terms <<k, c>>, each standing for c * zeta^k: what long sums are given as.
CyOf(n, terms) == FoldLeft(LAMBDA acc, e : CyPut(acc, e[1], e[2]), CyZero(n), terms)
\* Formal equality is sufficient for equality of values; when L is a power of two the relation zeta^(L/2) = -1 generates
\* all others, so the normal form below makes it necessary too.
CyNormal(u) == LET n == Len(u) IN IF n % 2 = 1 THEN u ELSE [r \in 1..(n \div 2) |-> CSub(u[r], u[r + n \div 2])]
=============================================================================
