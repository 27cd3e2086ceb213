-------------------------- MODULE ComplexTransformMC --------------------------
(* Round trips of every small three-phase and complex sample, and the laws of the transform.                          *)
EXTENDS ComplexTransform, TLC, Json, IOUtils, CSV

CONSTANTS Values, Reals
VARIABLES x, z, neutral
Init == /\ neutral \in BOOLEAN
        /\ \/ x \in [1..3 -> Values] /\ z = <<R0, R0>>
           \/ x = <<R0, R0, R0>> /\ z \in [1..2 -> Reals]
Next == UNCHANGED <<x, z, neutral>>
Sum(p) == RAdd(p[1], RAdd(p[2], p[3]))
F == Forward(neutral, x)
B == Backward(neutral, z)
\* Back from complex: exactly the signal without its zero sequence (a third of the sum of the phases).
RemovesZeroSequence == LET y == Backward(neutral, F)
                       IN \A i \in 1..3 : RScale(3, y[i]) = RScale(ForwardOver * BackwardOver, RSub(RScale(3, x[i]), Sum(x)))
ComplexReturns == Forward(neutral, B) = QScale(ForwardOver * BackwardOver, z)
PhasesSumToZero == Sum(B) = R0
GainInverts == QMul(Gain6, Inverse2) = QScale(12, <<<<1, 0>>, R0>>)
\* |gain|^2 = 1/3, and its angle is minus thirty degrees: gain / conj(gain) is minus sixty degrees.
GainIs == /\ RAdd(RMul(Gain6[1], Gain6[1]), RMul(Gain6[2], Gain6[2])) = <<12, 0>>
          /\ QScale(2, QMul(Gain6, Gain6)) = QMul(<<<<12, 0>>, R0>>, <<<<1, 0>>, <<0, -1>>>>)
NeutralIsGain == QScale(6, Forward(FALSE, x)) = QMul(Gain6, Forward(TRUE, x))
\* Rotation of a complex signal by a third of a cycle permutes the phases: c leads to a, a to b, b to c.
Third2 == <<<<-1, 0>>, <<0, 1>>>>
RotationPermutes == LET y == Backward(neutral, QMul(Third2, z)) b2 == [i \in 1..3 |-> RScale(2, B[i])]
                    IN y = <<b2[3], b2[1], b2[2]>>
Additive == \A k \in {-1, 3} : Backward(neutral, QScale(k, z)) = [i \in 1..3 |-> RScale(k, B[i])]
Emit == CSVWrite("%1$s", <<ToJson([x |-> x, z |-> z, neutral |-> neutral, f |-> F, b |-> B])>>, IOEnv.OUT)
MCValues == {<<p, 0>> : p \in -2..2} \cup {<<0, 1>>, <<1, -1>>}
MCReals == {<<p, q>> : p \in -2..2, q \in -1..1}
=============================================================================
