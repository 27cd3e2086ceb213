--------------------------------- MODULE Psd ---------------------------------
(* Power spectral density of the segments of a signal.  A power is the formal sum of u times its conjugate, over N^2,  *)
(* u being the windowed transform of the segment at zeta^k, zeta = exp(2 pi j / N).                                    *)
EXTENDS Cyclo

PsAccepted(b, x) == Len(b) > 0 /\ Len(b) <= Len(x) /\ \E i \in 1..Len(b) : b[i] # Z
\* Segments start at every multiple of the stride and fit completely.
PsStarts(n, length, stride) == IF length < n THEN <<>> ELSE [i \in 1..((length - n) \div stride + 1) |-> (i - 1) * stride]
\* Orders k with frequency 2 k / n in [0, 1).
PsOrders(n) == [i \in 1..((n + 1) \div 2) |-> i - 1]
PsTerms(b, s, k) == [j \in 1..Len(b) |-> <<(-k * (j - 1)) % Len(b), CMul(b[j], s[j])>>]
PsBin(b, s, k) == LET u == CyOf(Len(b), PsTerms(b, s, k)) IN CyMul(u, CyConj(u))
PsRow(b, s) == [i \in 1..((Len(b) + 1) \div 2) |-> PsBin(b, s, i - 1)]
PsRows(b, x, stride) == LET starts == PsStarts(Len(b), Len(x), stride)
                        IN [i \in 1..Len(starts) |-> PsRow(b, SubSeq(x, starts[i] + 1, starts[i] + Len(b)))]
\* The sum of the rows; the spectrum is this over their number.
PsSum(b, x, stride) == LET rows == PsRows(b, x, stride)
                       IN FoldLeft(LAMBDA acc, r : [i \in 1..Len(acc) |-> CyAdd(acc[i], r[i])], [i \in 1..((Len(b) + 1) \div 2) |-> CyZero(Len(b))], rows)
=============================================================================
