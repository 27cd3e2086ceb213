------------------------------- MODULE DesignMC -------------------------------
(* The grid of constraints, and the laws the contract relies on: alternating the signs of the coefficients mirrors    *)
(* the response, exchanging zero frequency and Nyquist, and keeps symmetry or, for odd order, turns it to             *)
(* antisymmetry; scaling and alternation commute and alternation is an involution.                                    *)
EXTENDS Design, Cyclo, TLC, Json, IOUtils, CSV

CONSTANTS Frequencies, Orders, Counts, Coefs, Lengths
VARIABLES c, b, a
vars == <<c, b, a>>
None == [kind |-> "none"]
Init == \/ /\ b = <<>> /\ a = <<>>
           /\ c \in [kind : {"fir"}, style : FirStyles, frequency : Frequencies, order : Orders, count : Counts, complement : BOOLEAN]
                    \cup [kind : {"iir"}, style : IirStyles, frequency : Frequencies, order : {o \in Orders : o <= 8}, count : Counts, complement : BOOLEAN]
        \/ /\ c = None
           /\ \E n \in Lengths : b \in [1..n -> Coefs] /\ a \in {[i \in 1..n |-> IF i = 1 THEN 1 ELSE u] : u \in Coefs}
Next == UNCHANGED vars
N == 8
Value(p, k) == FoldLeftDomain(LAMBDA acc, i : CyPut(acc, -k * (i - 1), <<p[i], 0>>), CyZero(N), p)
Mirrors == \A p \in {a, b} : \A k \in 0..N - 1 : CyNormal(Value(Signs(p), k)) = CyNormal(Value(p, k + N \div 2))
Involution == Signs(Signs(b)) = b
Symmetry == (b = Reverse(b) /\ b # <<>>) => Signs(b) = (IF Len(b) % 2 = 1 THEN Reverse(Signs(b)) ELSE Opposite(Reverse(Signs(b))))
MirrorsConstraint == (c # None) => /\ DeAccepted(c) /\ DeAccepted([c EXCEPT !.complement = ~ c.complement, !.frequency = 1000 - c.frequency])
                                   /\ Attainable(c) = Attainable([c EXCEPT !.complement = ~ c.complement, !.frequency = 1000 - c.frequency])
Emit == c # None => CSVWrite("%1$s", <<ToJson([c |-> c, attainable |-> Attainable(c)])>>, IOEnv.OUT)
=============================================================================
