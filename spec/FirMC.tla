-------------------------------- MODULE FirMC --------------------------------
(* Every history of bounded length of a FIR filter, against the convolution sum over the whole past.                 *)
EXTENDS Fir, TLC, Json, IOUtils, CSV

CONSTANTS Depth, Chunks, Resets, Configs
ASSUME Depth \in Nat

VARIABLES cfg, s, h, past
\* past: every sample since the beginning, newest first, preceded by the value assumed forever before (base).
vars == <<cfg, s, h, past>>

Init == /\ cfg \in Configs
        /\ s = FirInit(cfg)
        /\ h = <<>>
        /\ past = [x |-> FirInit(cfg), base |-> Z]

Filter(x) == /\ LET r == FirChunk(FirB(cfg), s, x)
                IN /\ s' = r.s
                   /\ h' = Append(h, [op |-> "filter", x |-> x, y |-> r.y])
             /\ past' = [past EXCEPT !.x = Reverse(x) \o past.x]
             /\ UNCHANGED cfg

Reset(x) == /\ s' = CFill(Len(s), x)
            /\ h' = Append(h, [op |-> "reset", x |-> <<x>>, y |-> <<>>])
            /\ past' = [x |-> <<>>, base |-> x]
            /\ UNCHANGED cfg

Next == /\ Len(h) < Depth
        /\ \/ \E x \in Chunks : Filter(x)
           \/ \E x \in Resets : Reset(x)

\* The declarative meaning: a convolution over the past, where what precedes a reset is the reset value.
At(i) == IF i <= Len(past.x) THEN past.x[i] ELSE past.base
Convolution(k) == FoldLeftDomain(LAMBDA acc, i : CAdd(acc, CMul(FirB(cfg)[i], At(i + k))), Z, FirB(cfg))

OutputIsConvolution ==
    (h # <<>> /\ Last(h).op = "filter") =>
        LET y == Last(h).y
        IN /\ Len(y) = Len(Last(h).x)
           /\ \A k \in 1..Len(y) : y[k] = Convolution(Len(y) - k)
StateIsRecentPast == \A i \in 1..Len(s) : s[i] = At(i)
\* A constant signal at the reset value is at steady state at once.
SteadyAfterReset ==
    (Len(h) >= 2 /\ h[Len(h) - 1].op = "reset" /\ Last(h).op = "filter") =>
        \A k \in 1..Len(Last(h).x) :
            (\A j \in 1..k : Last(h).x[j] = h[Len(h) - 1].x[1]) =>
                Last(h).y[k] = CMul(CSum(FirB(cfg)), h[Len(h) - 1].x[1])

Emit == Len(h) = Depth => CSVWrite("%1$s", <<ToJson([cfg |-> cfg, ev |-> h])>>, IOEnv.OUT)

C(b, i) == [b |-> b, s |-> i]
R(q) == [i \in 1..Len(q) |-> <<q[i], 0>>]
MCConfigs == {C(R(<<2>>), <<>>), C(R(<<1, -1>>), <<>>), C(R(<<0, 3>>), R(<<1, 2>>)), C(R(<<1, 2, -3>>), <<>>),
              C(<<<<1, 1>>, <<0, -2>>>>, <<>>), C(R(<<1>>), R(<<5, 7, -2>>)), C(R(<<1, 0, 0, -4>>), <<<<0, 1>>, <<2, 0>>>>)}
MCChunks == {R(<<1>>), R(<<-2>>), R(<<0, 3>>), <<<<1, -1>>>>, R(<<2, 1, -1>>)}
MCResets == {<<2, 0>>, <<0, -1>>}
=============================================================================
