-------------------------------- MODULE IirMC --------------------------------
EXTENDS Iir, TLC, Json, IOUtils, CSV

CONSTANTS Depth, Chunks, Resets, Configs

VARIABLES cfg, w, h, past
\* past: all samples x and outputs y since the beginning or the last reset, newest first; base precedes them.
vars == <<cfg, w, h, past>>
A == CPad(IirA(cfg), Len(w) + 1)
B == CPad(IirB(cfg), Len(w) + 1)

Init == /\ cfg \in Configs
        /\ w = CZeros(IirN(cfg) - 1)
        /\ h = <<>>
        /\ past = [x |-> <<>>, y |-> <<>>, base |-> Z]

Filter(x) == LET r == IirChunk(A, B, w, x)
             IN /\ w' = r.w
                /\ h' = Append(h, [op |-> "filter", x |-> x, y |-> r.y])
                /\ past' = [past EXCEPT !.x = Reverse(x) \o past.x, !.y = Reverse(r.y) \o past.y]
                /\ UNCHANGED cfg

Reset(x) == /\ Unity(A, B) /\ Divisible(A, x)
            /\ w' = IirReset(A, w, x)
            /\ h' = Append(h, [op |-> "reset", x |-> <<x>>, y |-> <<>>])
            /\ past' = [x |-> <<>>, y |-> <<>>, base |-> x]
            /\ UNCHANGED cfg

\* Another filter of the same coefficients continues from the state of this one, presented with n zeros appended.
Continue(n) == /\ w' = w \o CZeros(n)
               /\ h' = Append(h, [op |-> "continue", x |-> <<>>, y |-> <<>>, n |-> n])
               /\ UNCHANGED <<cfg, past>>

Next == /\ Len(h) < Depth
        /\ \/ \E x \in Chunks : Filter(x)
           \/ \E x \in Resets : Reset(x)
           \/ \E n \in {0, 2} : Continue(n)

X(i) == IF i <= Len(past.x) THEN past.x[i] ELSE past.base
Y(i) == IF i <= Len(past.y) THEN past.y[i] ELSE past.base

\* Holds across resets too: at steady state, past samples and past outputs both equal the reset value.
DifferenceEquation ==
    (h # <<>> /\ Last(h).op = "filter") =>
        \A k \in 1..Len(Last(h).x) :
            Y(k) = CAdd(FoldLeftDomain(LAMBDA acc, i : IF i = 1 THEN acc ELSE CAdd(acc, CMul(A[i], Y(k + i - 1))), Z, A),
                        FoldLeftDomain(LAMBDA acc, i : CAdd(acc, CMul(B[i], X(k + i - 1))), Z, B))
SteadyAfterReset ==
    (Len(h) >= 2 /\ h[Len(h) - 1].op = "reset" /\ Last(h).op = "filter") =>
        \A k \in 1..Len(Last(h).x) :
            (\A j \in 1..k : Last(h).x[j] = h[Len(h) - 1].x[1]) => Last(h).y[k] = h[Len(h) - 1].x[1]

Emit == Len(h) = Depth => CSVWrite("%1$s", <<ToJson([cfg |-> cfg, ev |-> h])>>, IOEnv.OUT)

R(q) == [i \in 1..Len(q) |-> <<q[i], 0>>]
C(a, b) == [a |-> R(a), b |-> R(b)]
MCConfigs == {C(<<0>>, <<3>>), C(<<0, 1>>, <<1>>), C(<<0, -1>>, <<0, 2>>), C(<<0, -1>>, <<3, -1>>), C(<<0, 1, -1>>, <<2, -1>>),
              C(<<0, 1, -1>>, <<-1, 1, 1>>), C(<<0, 0, -1>>, <<0, 1, 1>>), C(<<0, 2, -1>>, <<1, 2>>), C(<<0>>, <<1, 2, 3>>),
              [a |-> <<Z, <<0, 1>>>>, b |-> <<<<1, 1>>, <<2, 0>>>>], [a |-> R(<<0, -1, -1>>), b |-> <<<<0, 1>>>>],
              C(<<0, 0, 0, -1>>, <<0, 2, 0, 0>>), C(<<0, -1>>, <<>>)}
MCChunks == {R(<<1>>), R(<<-2>>), R(<<0, 4>>), <<<<1, -1>>>>, R(<<2, 2, -1>>)}
MCResets == {<<2, 0>>, <<0, -4>>}
=============================================================================
