------------------------------- MODULE Diversity -------------------------------
(* Diversity model.  State: the retained samples m, in order of position, and the size (order + 1) it fills up to.    *)
(* Distances are exact integers that order as the real ones: squared for Euclidean, a product for Geometric.          *)
(* A sample may be placed in several ways when members tie, so a step yields a set of outcomes.                       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Diff(u, v) == [i \in 1..Len(u) |-> IF u[i] >= v[i] THEN u[i] - v[i] ELSE v[i] - u[i]]
Dist(style, u, v) ==
    LET d == Diff(u, v)
    IN CASE style = "Chebyshev" -> FoldLeft(LAMBDA a, b : IF b > a THEN b ELSE a, 0, d)
         [] style = "Manhattan" -> FoldLeft(LAMBDA a, b : a + b, 0, d)
         [] style = "Euclidean" -> FoldLeft(LAMBDA a, b : a + b * b, 0, d)
         [] OTHER -> FoldLeft(LAMBDA a, b : a * b, 1, d)
MinPair(style, m) == Min({Dist(style, m[p[1]], m[p[2]]) : p \in {q \in (1..Len(m)) \X (1..Len(m)) : q[1] < q[2]}})
Replace(m, k, x) == [m EXCEPT ![k] = x]
\* The minimum pairwise distance after each replacement, from distances computed once.
Least(s, top) == FoldLeft(LAMBDA a, b : IF b < a THEN b ELSE a, top, s)
Top == 2147483647
Replaced(style, m, x) ==
    LET n == Len(m)
        among == [i \in 1..n |-> [j \in 1..n |-> IF j > i THEN Dist(style, m[i], m[j]) ELSE Top]]
        to == [i \in 1..n |-> Dist(style, m[i], x)]
    IN [k \in 1..n |-> Least([i \in 1..n |-> IF i = k THEN Top ELSE Least([among[i] EXCEPT ![k] = Top], to[i])], Top)]
\* The outcomes of presenting a sample: records of the next members and the reported diversity.
DvSample(style, size, m, x) ==
    IF Len(m) < size THEN {[m |-> Append(m, x), y |-> 0]}
    ELSE LET base == MinPair(style, m)
             got == Replaced(style, m, x)
             best == Max({got[k] : k \in 1..size})
         IN IF best > base THEN {[m |-> Replace(m, k, x), y |-> best] : k \in {j \in 1..size : got[j] = best}}
            ELSE {[m |-> m, y |-> base]}
\* The outcomes of a call whose reported diversities are ys.
DvReported(style, size, ms, xs, ys) ==
    FoldLeftDomain(LAMBDA acc, i : UNION {{o.m : o \in {p \in DvSample(style, size, m, xs[i]) : p.y = ys[i]}} : m \in acc}, ms, xs)
\* The outcomes of a call from a set of possible members: sets of records of members and reported diversities.
DvChunk(style, size, ms, xs) ==
    FoldLeft(LAMBDA acc, x : UNION {{[m |-> o.m, y |-> Append(a.y, o.y)] : o \in DvSample(style, size, a.m, x)} : a \in acc},
             {[m |-> m, y |-> <<>>] : m \in ms}, xs)
=============================================================================
