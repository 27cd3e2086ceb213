---------------------------- MODULE PolynomialRate ----------------------------
(* Polynomial rate filter at rate p / q and order 1, 2 or 3.  Output k is the local polynomial at time k q / p, which *)
(* is i + r / p with 0 <= r < p, over the denominator Den(p, order).  The signal is extended linearly at both ends.   *)
EXTENDS Integers, Sequences, SequencesExt

\* The sample at time i, in 0..n-1 or in a linear extension at either end.
At(x, i) == LET n == Len(x)
            IN IF i < 0 THEN x[1] + i * (x[2] - x[1])
               ELSE IF i >= n THEN x[n] + (i - n + 1) * (x[n] - x[n - 1])
               ELSE x[i + 1]
Den(p, order) == CASE order = 1 -> p [] order = 2 -> 80 * p * p [] OTHER -> 6 * p * p * p
\* Linear interpolation between adjacent samples.
Linear(x, p, i, r) == At(x, i) * (p - r) + At(x, i + 1) * r
\* The least squares parabola through the four samples at i-1 .. i+2, at i + r / p: mean, slope and curvature about i + 1/2.
Parabola(x, p, i, r) ==
    LET a == At(x, i - 1) b == At(x, i) c == At(x, i + 1) d == At(x, i + 2)
        s0 == a + b + c + d
        s1 == 3 * d + c - b - 3 * a
        s2 == a - b - c + d
        w == 2 * r - p
    IN 20 * p * p * s0 + 4 * p * w * s1 + 5 * (w * w - 5 * p * p) * s2
\* The cubic through the four samples.
Cubic(x, p, i, r) ==
    At(x, i - 1) * (-r * (r - p) * (r - 2 * p)) + At(x, i) * (3 * (r + p) * (r - p) * (r - 2 * p))
    + At(x, i + 1) * (-3 * (r + p) * r * (r - 2 * p)) + At(x, i + 2) * ((r + p) * r * (r - p))
Local(x, p, order, i, r) == CASE order = 1 -> Linear(x, p, i, r) [] order = 2 -> Parabola(x, p, i, r) [] OTHER -> Cubic(x, p, i, r)
Value(x, p, q, order, k) == Local(x, p, order, (k * q) \div p, (k * q) % p)
\* At an integer time rounding decides which of the two adjacent parabolas is evaluated.
Other(x, p, q, order, k) == LET i == (k * q) \div p r == (k * q) % p
                            IN IF r = 0 /\ k > 0 THEN Local(x, p, order, i - 1, p) ELSE Local(x, p, order, i, r)
\* The number of outputs: n p / q rounded to nearest, a tie to either side.
Counts(n, p, q) == {c \in {(n * p) \div q, (n * p) \div q + 1} : 2 * (c * q - n * p) <= q /\ 2 * (n * p - c * q) <= q}
MaxCount(n, p, q) == (2 * n * p + q) \div (2 * q)
PrValues(x, p, q, order) == [k \in 1..MaxCount(Len(x), p, q) |-> <<Value(x, p, q, order, k - 1), Other(x, p, q, order, k - 1)>>]
=============================================================================
