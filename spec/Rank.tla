--------------------------------- MODULE Rank ---------------------------------
(* Rank filter.  State: the window of the last n samples, newest first, and the rank.  An output is any member of the *)
(* window whose magnitude has the rank (members of equal magnitude are interchangeable).                              *)
EXTENDS Gauss, FiniteSets

RankInit(order, index) == [w |-> CZeros(order + 1), k |-> index]
Mag(u) == CNorm2(u)
Less(w, y) == Cardinality({i \in DOMAIN w : Mag(w[i]) < Mag(y)})
Upto(w, y) == Cardinality({i \in DOMAIN w : Mag(w[i]) <= Mag(y)})
RankMember(w, y) == \E i \in DOMAIN w : w[i] = y
RankOK(w, k, y) == RankMember(w, y) /\ Less(w, y) <= k /\ k < Upto(w, y)
RankSet(w, k) == {w[i] : i \in {j \in DOMAIN w : RankOK(w, k, w[j])}}
\* The windows after each sample of a chunk.
Windows(w, x) == Tail(FoldLeft(LAMBDA acc, u : Append(acc, CShift(acc[Len(acc)], u)), <<w>>, x))
=============================================================================
