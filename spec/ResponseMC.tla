------------------------------ MODULE ResponseMC ------------------------------
(* Every small filter: laws of the response, the delay of symmetric filters, and roots.                               *)
EXTENDS Response, TLC, Json, IOUtils, CSV

CONSTANTS Lengths, Values, Points
VARIABLES b, a, N
Init == /\ N \in Points
        /\ \E n \in Lengths : b \in [1..n -> Values] /\ a \in {[i \in 1..n |-> IF i = 1 THEN Z ELSE IF i = 2 THEN u ELSE v] : u \in Values, v \in {Z, One}}
        /\ \E i \in 1..Len(b) : b[i] # Z
Next == UNCHANGED <<b, a, N>>
D == 4
V == [i \in 1..N |-> ReValue(N, b, ReOrders(N)[i])]
S == [i \in 1..N |-> ReSlope(N, b, ReOrders(N)[i])]
IsReal(c) == \A i \in 1..Len(c) : c[i][2] = 0
\* Twice the real part of slope times the conjugate of value is the order times the squared magnitude: delay is order / 2.
SymmetricDelay == (IsReal(b) /\ \E s \in {1, -1} : \A i \in 1..Len(b) : b[Len(b) + 1 - i] = CScale(s, b[i])) =>
    \A i \in 1..N : LET p == CyMul(S[i], CyConj(V[i])) IN CyAdd(p, CyConj(p)) = CyScale(<<Len(b) - 1, 0>>, CyMul(V[i], CyConj(V[i])))
\* The response at zero frequency is the sum of the coefficients.
ZeroFrequency == V[N \div 2 + 1] = CyMono(N, 0, CSum(b))
\* A cascade is a filter whose coefficients are the convolution.
Cascade == \A i \in 1..N : CyPower(V[i], 2) = ReValue(N, PMul(b, b), ReOrders(N)[i])
\* A real filter responds conjugate symmetrically.
Conjugate == IsReal(b) => \A i \in 1..N : \A j \in 1..N : (ReOrders(N)[i] + ReOrders(N)[j]) % N = 0 => V[i] = CyConj(V[j])
Emit == CSVWrite("%1$s", <<ToJson([b |-> b, a |-> a, n |-> N, d |-> D, v |-> V, s |-> S,
                                   dv |-> [i \in 1..N |-> ReValue(N, ReDenominator(D, a), ReOrders(N)[i])],
                                   ds |-> [i \in 1..N |-> ReSlope(N, ReDenominator(D, a), ReOrders(N)[i])]])>>, IOEnv.OUT)
MCValues == {<<0, 0>>, <<1, 0>>, <<-2, 0>>, <<1, 1>>}
=============================================================================
