------------------------------ MODULE Derivative ------------------------------
(* Discrete derivatives.  A stencil is a sequence of integer weights over a common denominator K, newest sample first. *)
(* On the samples p(n) of a polynomial the response is sum_i w_i p(n - i): the stencil of derivative D is exact when   *)
(* its moments of order below D vanish and its moment of order D is D!.                                                *)
EXTENDS Fir

K == 144
Pairs == {<<1, 1>>, <<1, 2>>, <<1, 4>>, <<2, 2>>, <<2, 4>>, <<2, 6>>, <<2, 8>>, <<3, 4>>, <<3, 6>>, <<3, 8>>}
RECURSIVE Pow(_, _), Fact(_)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)

\* The moment of order m of weights w about the point c (in half samples, so that the middle of a window is exact).
Moment2(w, m, c2) == FoldLeftDomain(LAMBDA acc, i : acc + w[i] * Pow(c2 - 2 * (i - 1), m), 0, w)
Moment(w, m) == FoldLeftDomain(LAMBDA acc, i : acc + w[i] * Pow(-(i - 1), m), 0, w)

Annihilates(w, d) == \A m \in 0..(d - 1) : Moment(w, m) = 0
Unit(w, d) == Moment(w, d) = K * Fact(d)
Central(w, d, order) == order % 2 = 0 => Moment2(w, d + 1, order) = 0

PolyAt(p, n) == FoldLeftDomain(LAMBDA acc, i : acc + p[i] * Pow(n, i - 1), 0, p)
=============================================================================
