-------------------------------- MODULE Design --------------------------------
(* The contract of designed filters.  A constraint record c holds kind ("fir" or "iir"), style, frequency in           *)
(* thousandths, order, count and complement.  An observed design is a record of fixed point numbers (units 2^-26):     *)
(* b, a the coefficients over a reference, dc and ny the response at zero frequency and at Nyquist over the gain,       *)
(* mag the magnitude at the frequency over the gain, raised to count, and pole the largest pole magnitude.             *)
EXTENDS Gauss

Unit == 67108864
FirStyles == {"Blackman", "Hamming", "Hann", "Kaiser"}
IirStyles == {"Bessel", "Butterworth", "Chebyshev"}
DeAccepted(c) == /\ c.style \in (IF c.kind = "fir" THEN FirStyles ELSE IirStyles)
                 /\ c.frequency > 0 /\ c.frequency < 1000 /\ c.order > 0 /\ c.count > 0
\* A complement is designed at the mirror image of its frequency.
Effective(c) == IF c.complement THEN 1000 - c.frequency ELSE c.frequency
\* Whether style and order can reach -3 dB at the frequency, with a margin.
\* (An odd order FIR low pass filter has a zero at Nyquist.)
Attainable(c) ==
    LET f == Effective(c)
    IN CASE c.kind = "fir" -> c.order >= 4 /\ c.order * f >= 3500 /\ (c.order % 2 = 1 => c.order * (1000 - f) >= 3500) /\ (c.count > 3 => f <= 900 /\ c.order * f >= 5000 /\ (c.order % 2 = 1 => c.order * (1000 - f) >= 5000))
         [] c.style = "Chebyshev" -> f \in 50..900 /\ c.order \in 1..8
         [] c.style = "Butterworth" -> f \in 50..500 /\ c.order \in 2..8
         [] OTHER -> f \in 30..100 /\ c.order \in (IF c.count = 1 THEN 1..8 ELSE IF c.count <= 3 THEN 2..6 ELSE {})
\* Unity within which the response is evaluated reliably from rounded coefficients.
Near(x, target, tolerance) == Abs(x) < 4 * Unit /\ Abs(x - target) <= tolerance
Root2 == 47453133
Signs(b) == [i \in 1..Len(b) |-> IF i % 2 = 1 THEN b[i] ELSE -b[i]]
Agree(u, v) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : Abs(u[i]) < 8 * Unit /\ Abs(v[i]) < 8 * Unit /\ Abs(u[i] - v[i]) <= 64
Opposite(b) == [i \in 1..Len(b) |-> -b[i]]
DeVerdict(c, d) ==
    IF Len(d.b) # c.order + 1 \/ (c.kind = "iir" /\ Len(d.a) # c.order + 1) THEN "there are order + 1 coefficients"
    ELSE IF ~ c.complement /\ ~ Near(d.dc, Unit, 65536) THEN "response at zero frequency is the gain"
    ELSE IF c.complement /\ ~ Near(d.ny, Unit, 65536) THEN "response at Nyquist is the gain"
    ELSE IF c.kind = "fir" /\ ~ Agree(d.b, IF c.complement /\ c.order % 2 = 1 THEN Opposite(Reverse(d.b)) ELSE Reverse(d.b)) THEN "coefficients are symmetric"
    ELSE IF c.kind = "iir" /\ (d.a[1] # 0 \/ ~ d.stable) THEN "every pole is strictly inside the unit circle"
    ELSE IF Attainable(c) /\ ~ Near(d.mag, Root2, 134217) THEN "magnitude at the frequency is -3 dB"
    ELSE "ok"
=============================================================================
