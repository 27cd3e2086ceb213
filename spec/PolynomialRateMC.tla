--------------------------- MODULE PolynomialRateMC ---------------------------
(* Every short signal, rate and order.                                                                                *)
EXTENDS PolynomialRate, TLC, Json, IOUtils, CSV

CONSTANTS Values, Lengths, Rates
VARIABLES x, rate, order
Init == /\ \E n \in Lengths : x \in [1..n -> Values]
        /\ rate \in Rates
        /\ order \in {1, 2, 3}
Next == UNCHANGED <<x, rate, order>>
p == rate[1]
q == rate[2]
n == Len(x)
Y == PrValues(x, p, q, order)
Times == 1..Len(Y)
IsLinear == \A i \in 1..n - 1 : x[i + 1] - x[i] = x[2] - x[1]
IsQuadratic == \A i \in 1..n - 2 : x[i + 2] - 2 * x[i + 1] + x[i] = x[3] - 2 * x[2] + x[1]
\* A linear signal is reproduced exactly at every rate and order.
LinearExact == IsLinear => \A k \in Times : Y[k][1] * p = (x[1] * p + (x[2] - x[1]) * (k - 1) * q) * Den(p, order)
\* A quadratic one is reproduced away from the ends by orders two and three: four times its value is known from differences.
QuadraticExact == (order > 1 /\ n >= 4 /\ IsQuadratic) =>
    \A k \in Times : LET t == (k - 1) * q i == t \div p
                     IN (i >= 1 /\ i <= n - 3) =>
                        LET d1 == x[2] - x[1] d2 == x[3] - 2 * x[2] + x[1]
                        IN 2 * p * p * Y[k][1] = (2 * p * p * x[1] + 2 * p * t * d1 + t * (t - p) * d2) * Den(p, order)
\* At integer times orders one and three return the samples, whichever adjacent polynomial is evaluated.
Interpolates == (order # 2) => \A k \in Times : ((k - 1) * q) % p = 0 =>
    /\ Y[k][1] = At(x, ((k - 1) * q) \div p) * Den(p, order)
    /\ Y[k][2] = Y[k][1]
\* The parabola is the least squares one: its residuals at the four samples are orthogonal to 1, u and u^2.
LeastSquares == (order = 2) => \A i \in 0..n - 1 :
    LET e(u) == At(x, i + u) * Den(p, 2) - Parabola(x, p, i, u * p)
    IN e(-1) + e(0) + e(1) + e(2) = 0 /\ -e(-1) + e(1) + 2 * e(2) = 0 /\ e(-1) + e(1) + 4 * e(2) = 0
Emit == CSVWrite("%1$s", <<ToJson([x |-> x, p |-> p, q |-> q, order |-> order, y |-> Y, d |-> Den(p, order), c |-> Counts(n, p, q)])>>, IOEnv.OUT)
MCRates == {<<1, 1>>, <<2, 1>>, <<1, 2>>, <<3, 2>>, <<3, 1>>, <<2, 3>>, <<4, 5>>, <<10, 1>>, <<1, 3>>, <<7, 5>>, <<0, 1>>}
MCRatesNonzero == MCRates \ {<<0, 1>>}
=============================================================================
