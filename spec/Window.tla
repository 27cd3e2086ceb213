-------------------------------- MODULE Window --------------------------------
(* Window filter.  A coefficient is a formal sum over the powers of zeta = exp(2 pi j / order), in hundredths, for    *)
(* the windows that are sums of cosines, and for Kaiser the pair (p, q) of integers with coefficient                  *)
(* I0(7 sqrt(p / q)) / I0(7), I0 being the modified Bessel function.                                                  *)
EXTENDS Cyclo

CosineStyles == {"Hann", "Hamming", "Blackman"}
Ring(order) == Max2(order, 1)
\* c[1] - c[2] cos(2 pi n / order) + c[3] cos(4 pi n / order), in hundredths of halves: terms c[2], c[3] are per exponential.
Terms(style) == CASE style = "Hann" -> <<50, 25, 0>> [] style = "Hamming" -> <<54, 23, 0>> [] OTHER -> <<42, 25, 4>>
CosineTerms(style, order, n) ==
    LET c == Terms(style)
    IN << <<0, <<c[1], 0>>>>, <<n, <<-c[2], 0>>>>, <<-n, <<-c[2], 0>>>>, <<2 * n, <<c[3], 0>>>>, <<-2 * n, <<c[3], 0>>>> >>
\* A window of a single coefficient is one.
CoefficientTerms(style, order, n) == IF order = 0 THEN << <<0, <<100, 0>>>> >> ELSE CosineTerms(style, order, n)
Coefficient(style, order, n) == CyOf(Ring(order), CoefficientTerms(style, order, n))
Coefficients(style, order) == [i \in 1..order + 1 |-> Coefficient(style, order, i - 1)]
\* 1 - (2 n / order - 1)^2 = 4 n (order - n) / order^2
KaiserArgument(order, n) == IF order = 0 THEN <<1, 1>> ELSE <<4 * n * (order - n), order * order>>
KaiserArguments(order) == [i \in 1..order + 1 |-> KaiserArgument(order, i - 1)]
\* A signal is accepted when it has one dimension of order + 1 samples; each sample is weighed on its own.
Accepted(order, e) == e.dim = 1 /\ Len(e.x) = order + 1
=============================================================================
