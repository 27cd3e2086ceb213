----------------------------- MODULE WaveletTrace -----------------------------
(* Decides observed taps: fixed point numbers of 30 fractional bits, as limbs <<a, b, c>> = a 2^20 + b 2^10 + c,       *)
(* so that products and their sums are exact.  An event holds the low and high pass filters of one direction.         *)
EXTENDS Gauss, TraceCheck

\* Sum over the pairs of products as limbs of 2^-60 2^{40, 30, 20, 10, 0}, carried upwards.
Products(a, b) ==
    LET Sum(f(_)) == FoldLeftDomain(LAMBDA acc, i : acc + f(i), 0, a)
        s0 == Sum(LAMBDA i : a[i][3] * b[i][3])
        s1 == Sum(LAMBDA i : a[i][2] * b[i][3] + a[i][3] * b[i][2]) + s0 \div 1024
        s2 == Sum(LAMBDA i : a[i][1] * b[i][3] + a[i][2] * b[i][2] + a[i][3] * b[i][1]) + s1 \div 1024
        s3 == Sum(LAMBDA i : a[i][1] * b[i][2] + a[i][2] * b[i][1]) + s2 \div 1024
        s4 == Sum(LAMBDA i : a[i][1] * b[i][1]) + s3 \div 1024
    IN <<s4, s3 % 1024, s2 % 1024>>
\* Whether a sum of products is a value given in units 2^-20, within tolerance (units 2^-40).
Tolerance == 8192
Near(p, units) == LET d == p[1] - units IN Abs(d) <= 1 /\ Abs(d * 1048576 + p[2] * 1024 + p[3]) <= Tolerance
From(u, k) == SubSeq(u, k + 1, Len(u))
Upto(u, k) == SubSeq(u, 1, Len(u) - k)
Shifts(u) == {k \in 0..Len(u) - 1 : k % 2 = 0}
Sum30(u) == FoldLeft(LAMBDA acc, w : <<acc[1] + w[1], acc[2] + w[2], acc[3] + w[3]>>, <<0, 0, 0>>, u)
\* Sum of taps as 2^-30 units less a target in units of 2^-10.
SumNear(u, target) == LET s == Sum30(u)
                          c2 == s[2] + s[3] \div 1024
                          c1 == s[1] + c2 \div 1024
                      IN Abs(c1 - target) <= 1 /\ Abs((c1 - target) * 1048576 + (c2 % 1024) * 1024 + (s[3] % 1024)) <= 16
Verdict(h, g) ==
    IF Len(h) # Len(g) THEN "filters of different lengths"
    ELSE IF ~ \A k \in Shifts(h) : Near(Products(From(h, k), Upto(h, k)), IF k = 0 THEN 524288 ELSE 0) THEN "low pass filter is not orthogonal to its even shifts with energy one half"
    ELSE IF ~ \A k \in Shifts(g) : Near(Products(From(g, k), Upto(g, k)), IF k = 0 THEN 524288 ELSE 0) THEN "high pass filter is not orthogonal to its even shifts with energy one half"
    ELSE IF ~ \A k \in Shifts(g) : Near(Products(From(h, k), Upto(g, k)), 0) /\ Near(Products(From(g, k), Upto(h, k)), 0) THEN "low and high pass filters are not orthogonal"
    ELSE IF ~ SumNear(g, 0) THEN "high pass filter does not reject a constant"
    ELSE IF ~ SumNear(h, 1024) THEN "low pass filter does not have unit gain at zero frequency"
    ELSE "ok"
XInit(cfg) == 0
XStep(cfg, q, e) == [st |-> q, v |-> IF Len(e.h) # cfg.order + 1 THEN "the filter length is not order + 1" ELSE Verdict(e.h, e.g)]
=============================================================================
