------------------------------- MODULE Adaptive -------------------------------
(* Adaptive complex filters, exactly, in the group ring: zeta = exp(2 pi j / L).                                      *)
(*                                                                                                                   *)
(* State: the coefficient B / D, the rate rn / rd, and for the bandpass filter the phase p and frequency m of the     *)
(* exponential (powers of zeta), for the frequency filter the previous normalized sample s.                           *)
(* A result holds the reference y, the error e and the coefficient b, all over the denominator D.                     *)
EXTENDS Cyclo

Re(k) == <<k, 0>>
\* Bandpass: y = b x, e = d - y, b' = b + rate e conj(x), x = zeta^p, p' = p + m.
BandInit(L, m, rn, rd) == [B |-> CyZero(L), D |-> 1, p |-> 0, m |-> m, rn |-> rn, rd |-> rd]
BandSample(L, q, d) ==
    LET y == CyRot(q.B, q.p)
        e == CySub(CyScale(Re(q.D), d), y)
    IN [q |-> [q EXCEPT !.B = IF q.rn = 0 THEN q.B ELSE CyAdd(CyScale(Re(q.rd), q.B), CyScale(Re(q.rn), CyRot(e, -q.p))),
                        !.D = IF q.rn = 0 THEN q.D ELSE q.D * q.rd,
                        !.p = (q.p + q.m) % L],
        r |-> [y |-> y, e |-> e, b |-> q.B, D |-> q.D]]
\* Frequency: e = x - b s, b' = b + rate e conj(s), s' = x; the reference is the argument of b.
FreqInit(L, m, rn, rd) == [B |-> CyMono(L, m, One), D |-> 1, s |-> CyOne(L), rn |-> rn, rd |-> rd]
FreqSample(L, q, x) ==
    LET e == CySub(CyScale(Re(q.D), x), CyMul(q.s, q.B))
    IN [q |-> [q EXCEPT !.B = IF q.rn = 0 THEN q.B ELSE CyAdd(CyScale(Re(q.rd), q.B), CyScale(Re(q.rn), CyMul(CyConj(q.s), e))),
                        !.D = IF q.rn = 0 THEN q.D ELSE q.D * q.rd,
                        !.s = x],
        r |-> [y |-> q.B, e |-> e, b |-> q.B, D |-> q.D]]

AdSample(kind, L, q, d) == IF kind = "band" THEN BandSample(L, q, d) ELSE FreqSample(L, q, d)
AdChunk(kind, L, q, ds) ==
    FoldLeft(LAMBDA acc, d : LET r == AdSample(kind, L, acc.q, d) IN [q |-> r.q, y |-> Append(acc.y, r.r)], [q |-> q, y |-> <<>>], ds)
AdInit(kind, L, m, rn, rd) == IF kind = "band" THEN BandInit(L, m, rn, rd) ELSE FreqInit(L, m, rn, rd)
\* A frequency change: the bandpass exponential turns at the new frequency, with contiguous phase; the coefficient of the
\* frequency filter becomes the unit exponential of the new frequency.
AdRetune(kind, L, q, m) == IF kind = "band" THEN [q EXCEPT !.m = m] ELSE [q EXCEPT !.B = CyMono(L, m, Re(q.D))]
\* A sample is a magnitude c and a power k of zeta; the frequency filter uses its unit exponential, unless it is zero.
Sample(kind, L, u) == IF kind = "band" THEN CyMono(L, u[2], Re(u[1])) ELSE IF u[1] = 0 THEN CyZero(L) ELSE CyMono(L, u[2], One)

\* The analytic signal of a real signal of n samples, n dividing L, times n: its transform without negative frequencies.
Analytic(L, x) ==
    LET n == Len(x)
        h(k) == IF k = 0 \/ 2 * k = n THEN 1 ELSE IF 2 * k < n THEN 2 ELSE 0
    IN [i \in 1..n |-> FoldLeftDomain(LAMBDA acc, k : IF h(k - 1) = 0 THEN acc
                             ELSE FoldLeftDomain(LAMBDA bcc, j : CyPut(bcc, (L \div n) * (k - 1) * (i - j), Re(h(k - 1) * x[j])), acc, x), CyZero(L), x)]
=============================================================================
