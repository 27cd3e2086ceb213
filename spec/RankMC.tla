-------------------------------- MODULE RankMC --------------------------------
(* Every reachable state of a rank filter over a small set of samples: windows are bounded, so the state graph is     *)
(* finite and covers histories of every length.                                                                       *)
EXTENDS Rank, TLC, Json, IOUtils, CSV

CONSTANTS Samples, Orders

VARIABLES order, q, act
Init == /\ order \in Orders
        /\ q \in {RankInit(order, k) : k \in 0..order}
        /\ act = [op |-> "init", x |-> <<>>, ys |-> <<>>]
Filter(x) == LET w == CShift(q.w, x) IN q' = [q EXCEPT !.w = w] /\ act' = [op |-> "filter", x |-> <<x>>, ys |-> <<RankSet(w, q.k)>>]
Index(k) == k # q.k /\ q' = [q EXCEPT !.k = k] /\ act' = [op |-> "index", x |-> <<<<k, 0>>>>, ys |-> <<>>]
BadIndex(k) == UNCHANGED q /\ act' = [op |-> "bad", x |-> <<<<k, 0>>>>, ys |-> <<>>]
Reset(x) == q' = [q EXCEPT !.w = CFill(Len(q.w), x)] /\ act' = [op |-> "reset", x |-> <<x>>, ys |-> <<>>]
Next == /\ order' = order
        /\ \/ \E x \in Samples : Filter(x)
           \/ \E k \in 0..order : Index(k)
           \/ \E k \in {-1, order + 1} : BadIndex(k)
           \/ \E x \in Samples : Reset(x)

TypeOK == Len(q.w) = order + 1 /\ q.k \in 0..order
\* The rank is always realized, by members of one magnitude only.
Realized == /\ RankSet(q.w, q.k) # {}
            /\ \A u, v \in RankSet(q.w, q.k) : Mag(u) = Mag(v)
\* Ranks zero, middle and order are minimum, median and maximum magnitude; ranks are monotone.
Extremes == /\ \A u \in RankSet(q.w, 0) : \A i \in DOMAIN q.w : Mag(u) <= Mag(q.w[i])
            /\ \A u \in RankSet(q.w, order) : \A i \in DOMAIN q.w : Mag(u) >= Mag(q.w[i])
            /\ \A k \in 1..order : \A u \in RankSet(q.w, k - 1) : \A v \in RankSet(q.w, k) : Mag(u) <= Mag(v)
            /\ (order % 2 = 0) => \A u \in RankSet(q.w, order \div 2) :
                  /\ 2 * Cardinality({i \in DOMAIN q.w : Mag(q.w[i]) < Mag(u)}) <= order
                  /\ 2 * Cardinality({i \in DOMAIN q.w : Mag(q.w[i]) > Mag(u)}) <= order
\* The order of the samples in the window is irrelevant to the output.
Unordered == RankSet(Reverse(q.w), q.k) = RankSet(q.w, q.k)
View == <<order, q>>
EmitInit == TLCGet("level") = 1 => CSVWrite("%1$s", <<ToJson([init |-> q, order |-> order])>>, IOEnv.OUT)
EmitStep == CSVWrite("%1$s", <<ToJson([order |-> order, f |-> q, a |-> act', t |-> q'])>>, IOEnv.OUT)
MCSamples == {<<-3, 0>>, <<-1, 0>>, <<0, 0>>, <<1, 0>>, <<4, 0>>}
MCComplex == {<<0, 1>>, <<3, -4>>, <<5, 0>>, <<-1, 0>>, <<0, 0>>}
=============================================================================
