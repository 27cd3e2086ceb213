------------------------------- MODULE WindowMC -------------------------------
(* The windows of every style and every order up to a bound: symmetry, sum and peak.                                  *)
EXTENDS Window, TLC, Json, IOUtils, CSV

CONSTANTS Orders
VARIABLES style, order
Init == style \in CosineStyles \cup {"Kaiser"} /\ order \in Orders
Next == UNCHANGED <<style, order>>
W == Coefficients(style, order)
Sum(u) == FoldLeft(CyAdd, CyZero(Ring(order)), u)
\* All powers once (a sum that is zero in value when order >= 2).
All(c) == [r \in 1..Ring(order) |-> <<c, 0>>]
Symmetric == IF style = "Kaiser" THEN \A i \in 1..order + 1 : KaiserArguments(order)[i] = KaiserArguments(order)[order + 2 - i]
             ELSE \A i \in 1..order + 1 : W[i] = W[order + 2 - i]
\* Up to complete sums of powers, the coefficients sum to order times the constant term plus the first coefficient.
SumIs == (style # "Kaiser" /\ order >= 3) =>
    LET c == Terms(style)
        first == c[1] - 2 * c[2] + 2 * c[3]
        s == Sum(W)
    IN IF order % 2 = 1 THEN s = CyAdd(CyMono(order, 0, <<c[1] * order + first, 0>>), All(-2 * c[2] + 2 * c[3]))
       ELSE s = CyAdd(CyAdd(CyMono(order, 0, <<c[1] * order + first, 0>>), All(-2 * c[2])), [r \in 1..order |-> <<IF r % 2 = 1 THEN 4 * c[3] ELSE 0, 0>>])
\* The peak of an even order window is one, at the middle.
Peak == (order % 2 = 0 /\ order > 0) =>
    IF style = "Kaiser" THEN KaiserArgument(order, order \div 2)[1] = KaiserArgument(order, order \div 2)[2]
    ELSE CyNormal(W[order \div 2 + 1]) = CyNormal(CyMono(order, 0, <<100, 0>>))
Emit == CSVWrite("%1$s", <<ToJson([style |-> style, order |-> order, w |-> IF style = "Kaiser" THEN <<>> ELSE W,
                                   k |-> IF style = "Kaiser" THEN KaiserArguments(order) ELSE <<>>])>>, IOEnv.OUT)
=============================================================================
