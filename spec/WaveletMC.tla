------------------------------ MODULE WaveletMC ------------------------------
(* Perfect reconstruction: Haar at every level and shape, and an integer orthogonal filter of four taps in one level. *)
EXTENDS Wavelet, TLC, Json, IOUtils, CSV

CONSTANTS Shapes, Values
VARIABLES shape, count, x, filter
\* Integer multiples of orthogonal filters with h = g mirrored: <<h, g, hh, gg>>; energy is the sum of the squares of h.
Haar == [h |-> <<1, 1>>, g |-> <<1, -1>>, hh |-> <<1, 1>>, gg |-> <<-1, 1>>, energy |-> 2]
Four == [h |-> <<2, 1, 1, -2>>, g |-> <<2, 1, -1, 2>>, hh |-> <<-2, 1, 1, 2>>, gg |-> <<2, -1, 1, 2>>, energy |-> 10]
Init == /\ shape \in Shapes /\ count \in 1..3 /\ WvAccepted(shape, count)
        /\ filter \in {Haar, Four}
        /\ (filter = Four) => count = 1
        /\ x \in (IF shape[1] * shape[2] <= 4 THEN [1..shape[1] -> [1..shape[2] -> Values]]
                  ELSE {[i \in 1..shape[1] |-> [j \in 1..shape[2] |-> IF i = a /\ j = b THEN u ELSE IF (i * j) % 3 = 1 THEN v ELSE Z]] :
                        a \in 1..shape[1], b \in 1..shape[2], u \in Values, v \in Values})
Next == UNCHANGED <<shape, count, x, filter>>
A == <<filter.h, filter.g>>
S == <<filter.hh, filter.gg>>
Scaled(k) == [i \in 1..shape[1] |-> [j \in 1..shape[2] |-> CScale(k, x[i][j])]]
Axes == (IF shape[1] > 1 THEN 1 ELSE 0) + (IF shape[2] > 1 THEN 1 ELSE 0)
Power(b, n) == b ^ n
\* Synthesis of an analysis: the signal delayed by the filter order less one along each axis, times twice the energy per axis;
\* with taps of energy one half this is the signal.
D == Len(filter.h) - 2
Delayed(y, k) == [i \in 1..Len(y) |-> [j \in 1..Len(y[i]) |->
                    LET a == IF Len(y) > 1 THEN i - D ELSE i b == IF Len(y[i]) > 1 THEN j - D ELSE j
                    IN IF a < 1 \/ b < 1 THEN Z ELSE CScale(k, y[a][b])]]
Reconstructs == (filter = Four \/ count = 1) => WvTransform(S, WvTransform(A, x, 1, FALSE, 1), 1, TRUE, 1) = Delayed(x, Power(2 * filter.energy, Axes))
\* Haar at every level: with a head room of a power of two every pass divides exactly.
Room == 64
HaarReturns == (filter = Haar) => WvTransform(S, WvTransform(A, Scaled(Room), count, FALSE, 2), count, TRUE, 2) = Scaled(Room)
AllZero(y) == \A i \in 1..Len(y) : \A j \in 1..Len(y[i]) : y[i][j] = Z
ZeroIsZero == AllZero(x) => AllZero(WvTransform(A, x, count, FALSE, 1))
Emit == filter = Haar => CSVWrite("%1$s", <<ToJson([shape |-> shape, count |-> count, x |-> x, y |-> WvTransform(A, Scaled(Room), count, FALSE, 2)])>>, IOEnv.OUT)
MCShapes == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<1, 4>>, <<4, 1>>, <<2, 4>>, <<4, 4>>, <<8, 1>>, <<1, 8>>, <<8, 8>>, <<6, 2>>, <<1, 12>>}
MCValues == {<<0, 0>>, <<1, 0>>, <<-2, 1>>}
=============================================================================
