------------------------------ MODULE DiversityMC ------------------------------
(* Every reachable state over a small set of points: the state graph is finite, so histories of every length are      *)
(* covered.                                                                                                           *)
EXTENDS Diversity, TLC, Json, IOUtils, CSV

CONSTANTS Points, Sizes, Styles
VARIABLES style, size, m, y, act
Init == /\ style \in Styles /\ size \in Sizes
        /\ m = <<>> /\ y = 0 /\ act = <<>>
Fit(x) == \E o \in DvSample(style, size, m, x) : m' = o.m /\ y' = o.y /\ act' = <<x>>
Clear == m' = <<>> /\ y' = 0 /\ act' = <<>>
Next == UNCHANGED <<style, size>> /\ ((\E x \in Points : Fit(x)) \/ (m # <<>> /\ Clear))
View == <<style, size, m, y>>
Full == Len(m) = size
\* The reported diversity is the minimum pairwise distance, once a sample was considered; it is never more than that.
Reported == y = 0 \/ (Full /\ y = MinPair(style, m))
Subset == ToSet(m) \subseteq Points
\* Diversity never decreases until cleared, neither the reported one nor that of the members.
Monotone == [][act' # <<>> => y' >= y /\ (Full => MinPair(style, m') >= MinPair(style, m))]_<<m, y, act>>
\* The members change by at most the presented sample, and a replacement strictly increases the diversity.
OneAtATime == [][act' # <<>> /\ Full => Cardinality({k \in 1..size : m'[k] # m[k]}) <= 1
                                      /\ (\A k \in 1..size : m'[k] # m[k] => m'[k] = act'[1])
                                      /\ (m' # m => MinPair(style, m') > MinPair(style, m))]_<<m, y, act>>
\* Every exchange is judged by the minimum pairwise distance it leads to.
Exchange == Full => \A x \in Points : Replaced(style, m, x) = [k \in 1..size |-> MinPair(style, Replace(m, k, x))]
EmitStep == (act' # <<>> /\ y = 0) => CSVWrite("%1$s", <<ToJson([style |-> style, size |-> size, m |-> m, x |-> act'[1], n |-> m', y |-> y'])>>, IOEnv.OUT)
MCLine == {<<0>>, <<1>>, <<3>>, <<4>>, <<9>>}
MCPlane == {<<0, 0>>, <<1, 2>>, <<3, 1>>, <<4, 4>>, <<0, 3>>}
MCStyles == {"Chebyshev", "Euclidean", "Geometric", "Manhattan"}
=============================================================================
