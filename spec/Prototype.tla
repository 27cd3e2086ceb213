------------------------------- MODULE Prototype -------------------------------
(* The shapes that the styles of designed filters promise, in exact integers.                                         *)
(* Butterworth: attenuation (1 / |H|^2 - 1) grows as the power 2 N of the tangent of half the frequency, of which the  *)
(* first 2 N - 1 derivatives at zero vanish (maximally flat).  Chebyshev, Type I: attenuation over the ripple is the   *)
(* square of the Chebyshev polynomial of degree N of that tangent (equal ripple in band, monotone beyond).  Bessel:    *)
(* the reciprocal of a reverse Bessel polynomial, whose delay is maximally flat; poles are mapped by exp.  FIR: the    *)
(* sinc of an ideal low pass filter, weighed by a window.                                                              *)
(* Polynomials are sequences of coefficients in ascending powers.                                                      *)
EXTENDS Integers, Sequences, SequencesExt, Functions, Window

Put(u, i) == IF i \in 1..Len(u) THEN u[i] ELSE 0
Longer(u, v) == IF Len(u) < Len(v) THEN Len(v) ELSE Len(u)
PAdd(u, v) == [i \in 1..Longer(u, v) |-> Put(u, i) + Put(v, i)]
PScale(k, u) == [i \in 1..Len(u) |-> k * u[i]]
PShift(k, u) == [i \in 1..k + Len(u) |-> IF i <= k THEN 0 ELSE u[i - k]]
RECURSIVE Total(_, _)
Total(f, n) == IF n = 0 THEN 0 ELSE f[n] + Total(f, n - 1)
PMul(u, v) == [i \in 1..Len(u) + Len(v) - 1 |-> Total([j \in 1..i |-> Put(u, j) * Put(v, i + 1 - j)], i)]
RECURSIVE Binomial(_, _)
Binomial(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Binomial(n - 1, k - 1) + Binomial(n - 1, k)

\* Reverse Bessel polynomials.
RECURSIVE Reverses(_)
Reverses(n) == IF n = 0 THEN <<1>> ELSE IF n = 1 THEN <<1, 1>>
               ELSE LET u == Reverses(n - 1) IN PAdd(PScale(2 * n - 1, u), PShift(2, Reverses(n - 2)))
\* Chebyshev polynomials, and their values at p / q as numerators over the power n of q.
RECURSIVE Chebyshevs(_)
Chebyshevs(n) == IF n = 0 THEN <<1>> ELSE IF n = 1 THEN <<0, 1>> ELSE PAdd(PScale(2, PShift(1, Chebyshevs(n - 1))), PScale(-1, Chebyshevs(n - 2)))
RECURSIVE ChebyshevAt(_, _, _)
ChebyshevAt(n, p, q) == IF n = 0 THEN 1 ELSE IF n = 1 THEN p ELSE 2 * p * ChebyshevAt(n - 1, p, q) - q * q * ChebyshevAt(n - 2, p, q)
\* Forward coefficients of a recursive low pass filter, over the first: every zero is at Nyquist; alternated in a complement.
Zeros(n, complement) == [i \in 1..n + 1 |-> (IF complement /\ i % 2 = 0 THEN -1 ELSE 1) * Binomial(n, i - 1)]
\* A coefficient of an FIR filter is its window, by terms, and its distance from the middle, in halves of a sample.
Tap(style, order, n) == [w |-> IF style = "Kaiser" THEN KaiserArgument(order, n) ELSE CoefficientTerms(style, order, n), m |-> 2 * n - order]
Taps(style, order) == [i \in 1..order + 1 |-> Tap(style, order, i - 1)]
=============================================================================
