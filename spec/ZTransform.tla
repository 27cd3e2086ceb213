------------------------------ MODULE ZTransform ------------------------------
(* s-domain to z-domain conversion, from roots.  Polynomials are sequences of Gaussian integers, highest power first. *)
(*                                                                                                                   *)
(* Bilinear rule at frequency 2 / (pi tau): the root p maps to (tau + p) / (tau - p).  The polynomial of the mapped   *)
(* roots, times the product of the denominators, is ZtBilinear.                                                       *)
(* Impulse invariant rule: the poles are -t k ln 2, mapped to 2^-k, and the zeros are -t m ln 2, for integers k, m,   *)
(* so that residues are rational up to a common factor.                                                               *)
EXTENDS Gauss

PMul(a, b) == [i \in 1..Len(a) + Len(b) - 1 |->
                FoldLeftDomain(LAMBDA acc, j : IF i - j + 1 \in 1..Len(b) THEN CAdd(acc, CMul(a[j], b[i - j + 1])) ELSE acc, Z, a)]
PAdd(a, b) == [i \in 1..Len(a) |-> CAdd(a[i], b[i])]
PScale(c, a) == [i \in 1..Len(a) |-> CMul(c, a[i])]
PSum(a) == CSum(a)
\* Product over the roots of (d z - n), for fractions <<n, d>>.
PRoots(fractions) == FoldLeft(LAMBDA acc, f : PMul(acc, <<f[2], CNeg(f[1])>>), <<One>>, fractions)

\* The s-domain polynomial of given roots, and its mapped polynomial.
ZtPolynomial(roots) == PRoots([i \in 1..Len(roots) |-> <<roots[i], One>>])
Mapped(tau, roots) == [i \in 1..Len(roots) |-> <<CAdd(<<tau, 0>>, roots[i]), CSub(<<tau, 0>>, roots[i])>>]
\* Zeros are completed by zeros at the origin.
ZtBilinear(tau, poles, zeros) ==
    LET b == PRoots(Mapped(tau, zeros))
    IN [a |-> PRoots(Mapped(tau, poles)), b |-> b \o CZeros(Max2(0, Len(poles) - Len(zeros)))]
\* |tau + p| < |tau - p|
Inside(tau, p) == CNorm2(CAdd(<<tau, 0>>, p)) < CNorm2(CSub(<<tau, 0>>, p))

\* Impulse invariant: poles given by distinct integers k, zeros by integers m; fractions 2^-k.
Fraction(k) == IF k >= 0 THEN <<One, <<2 ^ k, 0>>>> ELSE <<<<2 ^ (-k), 0>>, One>>
ProductOf(s) == FoldLeft(LAMBDA acc, c : acc * c, 1, s)
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
\* The residue at pole i, times the common denominator Product over j < l of (k_l - k_j), up to one common factor:
\* Product of (m - k_i) over Product over j # i of (k_j - k_i).
Vandermonde(k) == ProductOf([j \in 1..Len(k) |-> ProductOf([l \in 1..Len(k) |-> IF l > j THEN k[l] - k[j] ELSE 1])])
Residue(k, m, i) ==
    LET rest == Without(k, i)
    IN (Vandermonde(k) \div ProductOf([j \in 1..Len(rest) |-> rest[j] - k[i]])) * ProductOf([j \in 1..Len(m) |-> m[j] - k[i]])
\* Sum over i of residue i times Product over j # i of (1 - z_j z^-1), with common denominators; shifted by none: the
\* coefficient of the last power is zero.
ZtImpulse(k, m) ==
    LET fs == [i \in 1..Len(k) |-> Fraction(k[i])]
        Part(i) == PScale(CMul(<<Residue(k, m, i), 0>>, fs[i][2]), PRoots(Without(fs, i)))
        b == FoldLeftDomain(LAMBDA acc, i : PAdd(acc, Part(i)), CZeros(Len(k)), k)
    IN [a |-> PRoots(fs), b |-> b \o <<Z>>]
\* A pair of conjugate poles of magnitude 2^-k and angle plus and minus a quarter cycle: b is a pure delay.
ZtPair(k) == LET d == 4 ^ k IN [a |-> <<<<d, 0>>, Z, One>>, b |-> <<Z, One, Z>>]

\* The same polynomials modulo an integer below 2^15, for many roots: from several moduli the integers are recovered.
MNum(m, c) == <<c[1] % m, c[2] % m>>
MMul(m, a, b) == <<(a[1] * b[1] - a[2] * b[2]) % m, (a[1] * b[2] + a[2] * b[1]) % m>>
MPMul(m, a, b) == [i \in 1..Len(a) + Len(b) - 1 |->
                    FoldLeftDomain(LAMBDA acc, j : IF i - j + 1 \in 1..Len(b) THEN MNum(m, CAdd(acc, MMul(m, a[j], b[i - j + 1]))) ELSE acc, Z, a)]
MPRoots(m, fractions) == FoldLeft(LAMBDA acc, f : MPMul(m, acc, <<MNum(m, f[2]), MNum(m, CNeg(f[1]))>>), <<One>>, fractions)
MPolynomial(m, roots) == MPRoots(m, [i \in 1..Len(roots) |-> <<roots[i], One>>])
MBilinear(m, tau, poles, zeros) ==
    [a |-> MPRoots(m, Mapped(tau, poles)), b |-> MPRoots(m, Mapped(tau, zeros)) \o CZeros(Max2(0, Len(poles) - Len(zeros)))]
MProduct(m, s) == FoldLeft(LAMBDA acc, c : (acc * (c % m)) % m, 1, s)
\* The quotient of the Vandermonde product by the differences of pole i: the product of the others, with a sign.
MResidue(m, k, z, i) ==
    LET rest == Without(k, i)
        sign == IF i % 2 = 1 THEN 1 ELSE -1
        others == MProduct(m, [j \in 1..Len(rest) |-> MProduct(m, [l \in 1..Len(rest) |-> IF l > j THEN rest[l] - rest[j] ELSE 1])])
    IN (sign * others * MProduct(m, [j \in 1..Len(z) |-> z[j] - k[i]])) % m
MImpulse(m, k, z) ==
    LET fs == [i \in 1..Len(k) |-> Fraction(k[i])]
        Part(i) == LET c == MMul(m, <<MResidue(m, k, z, i), 0>>, MNum(m, fs[i][2])) p == MPRoots(m, Without(fs, i))
                   IN [j \in 1..Len(p) |-> MMul(m, c, p[j])]
        b == FoldLeftDomain(LAMBDA acc, i : LET p == Part(i) IN [j \in 1..Len(acc) |-> MNum(m, CAdd(acc[j], p[j]))], CZeros(Len(k)), k)
    IN [a |-> MPRoots(m, fs), b |-> b \o <<Z>>]
=============================================================================
