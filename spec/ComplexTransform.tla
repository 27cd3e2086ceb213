--------------------------- MODULE ComplexTransform ---------------------------
(* Three-phase and complex representations, exactly: numbers of Z[sqrt 3][j].  A real number of Z[sqrt 3] is the pair  *)
(* <<p, q>> = p + q sqrt(3); a complex one is a pair of these.  Results carry a fixed denominator, below.              *)
EXTENDS Integers, Sequences

RAdd(u, v) == <<u[1] + v[1], u[2] + v[2]>>
RSub(u, v) == <<u[1] - v[1], u[2] - v[2]>>
RMul(u, v) == <<u[1] * v[1] + 3 * u[2] * v[2], u[1] * v[2] + u[2] * v[1]>>
RScale(k, u) == <<k * u[1], k * u[2]>>
R0 == <<0, 0>>
QAdd(u, v) == <<RAdd(u[1], v[1]), RAdd(u[2], v[2])>>
QMul(u, v) == <<RSub(RMul(u[1], v[1]), RMul(u[2], v[2])), RAdd(RMul(u[1], v[2]), RMul(u[2], v[1]))>>
QScale(k, u) == <<RScale(k, u[1]), RScale(k, u[2])>>

\* sqrt(1/3) exp(-j pi / 6) = (3 - j sqrt 3) / 6, and its inverse (3 + j sqrt 3) / 2.
Gain6 == <<<<3, 0>>, <<0, -1>>>>
Inverse2 == <<<<3, 0>>, <<0, 1>>>>

\* Three phases <<a, b, c>> of Z[sqrt 3] to complex, over ForwardOver: 3 re = 2a - b - c, 3 im = sqrt(3) (b - c).
ForwardOver == 18
Forward(neutral, x) ==
    LET v == <<RSub(RScale(2, x[1]), RAdd(x[2], x[3])), RMul(<<0, 1>>, RSub(x[2], x[3]))>>
    IN IF neutral THEN QScale(6, v) ELSE QMul(Gain6, v)
\* Complex to three phases, over BackwardOver: a = re, b = -re / 2 + im sqrt(3) / 2, c = -re / 2 - im sqrt(3) / 2.
BackwardOver == 4
Backward(neutral, z) ==
    LET v == IF neutral THEN QScale(2, z) ELSE QMul(Inverse2, z)
        s == RMul(<<0, 1>>, v[2])
    IN <<RScale(2, v[1]), RSub(s, v[1]), RSub(RScale(-1, s), v[1])>>

\* A signal of one row (complex or real) or three rows (real), of one or two dimensions.
Accepted(shape) == (Len(shape) = 1 /\ shape[1] > 0) \/ (Len(shape) = 2 /\ shape[1] \in {1, 3} /\ shape[2] > 0)
ThreePhase(shape) == Len(shape) = 2 /\ shape[1] = 3
=============================================================================
