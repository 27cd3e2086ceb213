------------------------------ MODULE PrototypeMC ------------------------------
(* The polynomials that define the shapes, of every order within bounds, have the qualities the styles promise.        *)
EXTENDS Prototype, TLC, Json, IOUtils, CSV

CONSTANTS Orders, Den
VARIABLES n, q
Init == n \in Orders /\ q \in 1..Den
Next == UNCHANGED <<n, q>>

Power(x, k) == FoldLeft(LAMBDA acc, i : acc * x, 1, [i \in 1..k |-> i])
\* |T| is one at most in band, reaches one at the edge, and grows beyond.
InBand == \A p \in -q..q : ChebyshevAt(n, p, q) <= Power(q, n) /\ ChebyshevAt(n, p, q) >= -Power(q, n)
Edge == ChebyshevAt(n, q, q) = Power(q, n)
Beyond == \A p \in q..q + q \div 2 : ChebyshevAt(n, p, q) < ChebyshevAt(n, p + 1, q)
\* The polynomial and its values agree.
RECURSIVE Horner(_, _, _, _)
Horner(u, i, a, b) == IF i > Len(u) THEN 0 ELSE u[i] * Power(a, i - 1) * Power(b, Len(u) - i) + Horner(u, i + 1, a, b)
Values == \A p \in -q..q : n <= 6 => Horner(Chebyshevs(n), 1, p, q) = ChebyshevAt(n, p, q)
\* The reverse Bessel polynomial, in closed form: coefficient k is (2 n - k)! / (2^(n - k) k! (n - k)!).
Factorial(k) == FoldLeft(LAMBDA acc, i : acc * i, 1, [i \in 1..k |-> i])
Falling(a, b) == FoldLeft(LAMBDA acc, i : acc * (b + i), 1, [i \in 1..a - b |-> i])
Closed == n <= 6 => \A k \in 0..n : Reverses(n)[k + 1] * Power(2, n - k) * Factorial(n - k) = Falling(2 * n - k, k)
\* Delay is maximally flat: over the imaginary axis, |theta|^2 - theta' conj(theta) (real part) leaves only the power 2 n.
\* With theta = E + j O, the delay is (E O' - O E') / (E^2 + O^2).
Sign(i) == IF (i \div 2) % 2 = 0 THEN 1 ELSE -1
Even(u) == [i \in 1..Len(u) |-> IF i % 2 = 1 THEN u[i] * Sign(i - 1) ELSE 0]
Odd(u) == [i \in 1..Len(u) |-> IF i % 2 = 0 THEN u[i] * Sign(i - 1) ELSE 0]
Slope(u) == IF Len(u) = 1 THEN <<0>> ELSE [i \in 1..Len(u) - 1 |-> i * u[i + 1]]
Flat == n <= 6 =>
    LET u == Reverses(n)
        magnitude == PAdd(PMul(Even(u), Even(u)), PMul(Odd(u), Odd(u)))
        numerator == PAdd(PMul(Even(u), Slope(Odd(u))), PScale(-1, PMul(Odd(u), Slope(Even(u)))))
        rest == PAdd(magnitude, PScale(-1, numerator))
    IN \A i \in 1..Len(rest) : rest[i] = (IF i = 2 * n + 1 THEN 1 ELSE 0)
\* Zeros at Nyquist: the response vanishes there, and there only.
Alternate(u) == Total([i \in 1..Len(u) |-> IF i % 2 = 1 THEN u[i] ELSE -u[i]], Len(u))
Vanish == Alternate(Zeros(n, FALSE)) = 0 /\ Total(Zeros(n, TRUE), n + 1) = 0 /\ Alternate(Zeros(n, TRUE)) = Power(2, n) /\ Total(Zeros(n, FALSE), n + 1) = Power(2, n)
Symmetric == \A s \in CosineStyles \cup {"Kaiser"} : \A i \in 1..n + 1 : Taps(s, n)[i].m = -Taps(s, n)[n + 2 - i].m
=============================================================================
