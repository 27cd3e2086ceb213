------------------------------ MODULE IntegralMC ------------------------------
EXTENDS Integral, TLC, Json, IOUtils, CSV

CONSTANTS Depth, Chunks

Weights(o) == CASE o = 0 -> <<360>> [] o = 1 -> <<180, 180>> [] o = 2 -> <<60, 240, 60>>
                [] o = 3 -> <<45, 135, 135, 45>> [] o = 4 -> <<28, 128, 48, 128, 28>>

VARIABLES order, q, h, past
W == Weights(order)

Init == order \in 0..4 /\ q = IntInit(order) /\ h = <<>> /\ past = <<>>
Filter(x) == LET r == IntChunk(W, q, x)
             IN /\ q' = r.q
                /\ h' = Append(h, [x |-> x, y |-> r.y])
                /\ past' = past \o x
                /\ UNCHANGED order
Next == Len(h) < Depth /\ \E x \in Chunks : Filter(x)

WeightsSound == Quadrature(W, order) /\ NonNegative(W) /\ Symmetric(W) /\ UnitSum(W)
\* Declarative: output n is the sum over all pairs of a weight and a sample that precedes it far enough.
RunningSum == q.sum = FoldLeftDomain(LAMBDA acc, j : CAdd(acc,
                  CScale(ISum(SubSeq(W, 1, Min2(order + 1, Len(past) - j + 1))), past[j])), Z, past)
\* After order zeros everything presented before is fully accumulated.
HoldsTotal == (Len(past) >= order /\ \A i \in (Len(past) - order + 1)..Len(past) : past[i] = Z)
                  => q.sum = CScale(K, CSum(past))
ConstantGrowsByItself ==
    (Len(past) > order + 1 /\ \A i \in (Len(past) - order)..Len(past) : past[i] = past[Len(past)])
        => q.sum = CAdd(CScale(K, past[Len(past)]),
                        LET p == SubSeq(past, 1, Len(past) - 1)
                        IN FoldLeftDomain(LAMBDA acc, j : CAdd(acc,
                               CScale(ISum(SubSeq(W, 1, Min2(order + 1, Len(p) - j + 1))), p[j])), Z, p))

Emit == Len(h) = Depth => CSVWrite("%1$s", <<ToJson([order |-> order, ev |-> h])>>, IOEnv.OUT)
R(v) == [i \in 1..Len(v) |-> <<v[i], 0>>]
MCChunks == {R(<<1>>), R(<<-2, 0, 0, 0, 0>>), R(<<3, 3, 3>>), <<<<0, 1>>, <<2, -1>>>>}
=============================================================================
