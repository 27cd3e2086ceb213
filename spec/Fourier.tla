------------------------------- MODULE Fourier -------------------------------
(* Windowed discrete Fourier transform and its inverse, as formal sums over the powers of zeta = exp(2 pi j / N),      *)
(* N being the window length.  Order k of the forward transform stands for the frequency 2 k / N, k from -floor(N / 2) *)
(* on; the value of the forward transform is FoForward over N.                                                        *)
EXTENDS Cyclo

FoOrders(n) == [i \in 1..n |-> i - 1 - (n \div 2)]
\* Only as many samples as the window has are used.
FoAccepted(b, x) == Len(x) > 0 /\ Len(b) > 0 /\ Len(b) <= Len(x) /\ \E i \in 1..Len(b) : b[i] # Z
\* The terms of the transform at order k, and of the inverse at sample i.
FoForwardTerms(b, x, k) == [j \in 1..Len(b) |-> <<(-k * (j - 1)) % Len(b), CMul(b[j], x[j])>>]
FoInverseTerms(b, x, i) == [j \in 1..Len(b) |-> <<(FoOrders(Len(b))[j] * (i - 1)) % Len(b), x[j]>>]
FoForward(b, x) == [i \in 1..Len(b) |-> CyOf(Len(b), FoForwardTerms(b, x, FoOrders(Len(b))[i]))]
\* The inverse of a spectrum given as Gaussian integers, in the order of FoOrders: sample i is FoInverse[i] / b[i].
FoInverse(b, x) == [i \in 1..Len(b) |-> CyOf(Len(b), FoInverseTerms(b, x, i))]
\* The inverse of a spectrum given as formal sums.
FoInverseFormal(u) ==
    LET n == Len(u)
    IN [i \in 1..n |-> FoldLeftDomain(LAMBDA acc, j : CyAdd(acc, CyRot(u[j], FoOrders(n)[j] * (i - 1))), CyZero(n), u)]
\* What the inverse of the forward transform returns at a sample: the sample itself where the window is not zero, zero at
\* an edge where only the edge of the window is zero (the sample is lost), and nothing certain elsewhere.
FoRecovered(b) ==
    LET n == Len(b)
        at(i) == IF b[i] # Z THEN "sample"
                 ELSE IF n > 1 /\ ((i = 1 /\ b[2] # Z) \/ (i = n /\ b[n - 1] # Z)) THEN "zero"
                 ELSE "open"
    IN [i \in 1..n |-> at(i)]
=============================================================================
