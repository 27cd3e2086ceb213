------------------------------ MODULE FourierMC ------------------------------
(* Every small signal and window.  Equality of values is decided by a normal form: modulo the relation                *)
(* zeta^(N/2) = -1 for N a power of two, and modulo the sum of all powers for N prime.                                *)
EXTENDS Fourier, TLC, Json, IOUtils, CSV

CONSTANTS Lengths, Samples, Weights
VARIABLES b, x
Init == \E n \in Lengths : /\ b \in {w \in [1..n -> Weights] : \E i \in 1..n : w[i] # Z}
                           /\ x \in [1..n -> Samples]
Next == UNCHANGED <<b, x>>
Normal(u) == LET n == Len(u) IN IF n \in {1, 2, 4, 8} THEN (IF n = 1 THEN u ELSE CyNormal(u)) ELSE [r \in 1..n |-> CSub(u[r], u[n])]
Same(u, v) == Normal(u) = Normal(v)
N == Len(b)
X == FoForward(b, x)
Orders == FoOrders(N)
\* The inverse of the forward transform is the windowed signal (times N).
RoundTrip == \A i \in 1..N : Same(FoInverseFormal(X)[i], CyMono(N, 0, CScale(N, CMul(b[i], x[i]))))
\* Energy is preserved.
Parseval == Same(FoldLeft(LAMBDA acc, u : CyAdd(acc, CyMul(u, CyConj(u))), CyZero(N), X),
                 CyMono(N, 0, CScale(N, FoldLeftDomain(LAMBDA acc, i : CAdd(acc, LET p == CMul(b[i], x[i]) IN CMul(p, CConj(p))), Z, b))))
\* A real signal and window have a spectrum that is conjugate symmetric about zero frequency.
ConjugateSymmetric == (\A i \in 1..N : x[i][2] = 0 /\ b[i][2] = 0) =>
    \A i \in 1..N : \A j \in 1..N : (Orders[i] + Orders[j]) % N = 0 => Same(X[i], CyConj(X[j]))
ZeroFrequencyIsSum == X[N \div 2 + 1] = CyMono(N, 0, CDot(b, x))
\* The product of a recovered sample with its window is the windowed signal, whatever is recovered.
Recovered == \A i \in 1..N : LET r == FoRecovered(b)[i]
    IN (r = "sample" <=> b[i] # Z) /\ (r # "open" => CMul(b[i], IF r = "sample" THEN x[i] ELSE Z) = CMul(b[i], x[i]))
Emit == CSVWrite("%1$s", <<ToJson([b |-> b, x |-> x, y |-> X, r |-> FoRecovered(b)])>>, IOEnv.OUT)
MCSamples == {<<0, 0>>, <<1, 0>>, <<-2, 0>>, <<1, -1>>}
MCSmall == {<<0, 0>>, <<1, 1>>, <<-2, 0>>}
MCWeights == {<<0, 0>>, <<1, 0>>, <<-3, 0>>}
MCOne == {<<1, 0>>, <<2, 0>>}
MCSparse == {<<0, 0>>, <<1, -2>>}
MCUnit == {<<1, 0>>}
=============================================================================
