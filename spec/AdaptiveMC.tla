------------------------------ MODULE AdaptiveMC ------------------------------
(* Every history of bounded length of both adaptive filters.                                                          *)
EXTENDS Adaptive, TLC, Json, IOUtils, CSV

CONSTANTS L, Depth, Kinds, Rates, Samples
VARIABLES kind, q, h
Init == /\ kind \in Kinds
        /\ \E m \in {0, 1, L - 1}, r \in Rates :
             /\ q = AdInit(kind, L, m, r[1], r[2])
             /\ h = <<[op |-> "init", x |-> <<m, r[1], r[2]>>, y |-> <<>>]>>
Filter(u) == LET r == AdSample(kind, L, q, Sample(kind, L, u))
             IN q' = r.q /\ h' = Append(h, [op |-> "filter", x |-> u, y |-> <<r.r>>])
Rate(r) == r # <<q.rn, q.rd>> /\ Last(h).op = "filter" /\ q' = [q EXCEPT !.rn = r[1], !.rd = r[2]] /\ h' = Append(h, [op |-> "rate", x |-> r, y |-> <<>>])
Retune(m) == Last(h).op = "filter" /\ q' = AdRetune(kind, L, q, m) /\ h' = Append(h, [op |-> "frequency", x |-> <<m, 0>>, y |-> <<>>])
Next == /\ Len(h) <= Depth /\ kind' = kind
        /\ \/ \E u \in Samples : Filter(u)
           \/ \E r \in Rates : Rate(r)
           \/ \E m \in {0, 2} : Retune(m)

Out == Last(h).y[1]
X == Sample(kind, L, Last(h).x)
Filtered == Last(h).op = "filter"
\* Bandpass: reference plus error is the primary signal.
Complete == (Filtered /\ kind = "band") => CyAdd(Out.y, Out.e) = CyScale(Re(Out.D), X)
\* A rate of zero freezes the coefficient.
Frozen == [][(kind = "band" \/ h'[Len(h')].op = "filter") /\ q.rn = 0 => q'.B = q.B /\ q'.D = q.D]_<<q, h>>
\* A rate of one adapts at once: the next coefficient reproduces the sample (bandpass), or turns the previous sample into it.
AtOnce == (Filtered /\ q.rn = 1 /\ q.rd = 1) =>
    IF kind = "band" THEN CyRot(q.B, q.p - q.m) = CyScale(Re(q.D), X)
    ELSE Len(h) >= 3 /\ h[Len(h) - 1].op = "filter" /\ h[Len(h) - 1].x[1] # 0 =>
         CyMul(q.B, Sample(kind, L, h[Len(h) - 1].x)) = CyScale(Re(q.D), X)
Emit == Len(h) = Depth + 1 => CSVWrite("%1$s", <<ToJson([kind |-> kind, ev |-> h])>>, IOEnv.OUT)
MCRates == {<<0, 1>>, <<1, 2>>, <<1, 1>>}
MCSamples == {<<1, 0>>, <<2, 1>>, <<0, 0>>, <<1, 6>>}
=============================================================================
