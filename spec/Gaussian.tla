------------------------------- MODULE Gaussian -------------------------------
(* Mahalanobis distance to classes of integer samples of one, two or three dimensions, exactly.                       *)
(*                                                                                                                   *)
(* For a class of n samples with sum S, the covariance is C / n^2 with C = n Sum x x' - S S', and with regularization *)
(* rn / rd its regularized form is A / (n^2 rd) with A = rd C + rn n^2 I.  The squared distance of x is then          *)
(* rd v' adj(A) v / det(A) with v = n x - S.  The distance is given as numerator and denominator.                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Dot(u, v) == Sum([i \in 1..Len(u) |-> u[i] * v[i]])
Members(xs, ys, label) == LET keep == SelectSeq([i \in 1..Len(xs) |-> <<ys[i], xs[i]>>], LAMBDA p : p[1] = label) IN [i \in 1..Len(keep) |-> keep[i][2]]
Labels(ys) == {ys[i] : i \in 1..Len(ys)}
\* The statistics of a class: they depend on its samples only as a multiset.
Stats(z, rn, rd) ==
    LET n == Len(z)
        d == Len(z[1])
        S == [i \in 1..d |-> Sum([k \in 1..n |-> z[k][i]])]
    IN [n |-> n, S |-> S, rd |-> rd,
        A |-> [i \in 1..d |-> [j \in 1..d |-> rd * (n * Sum([k \in 1..n |-> z[k][i] * z[k][j]]) - S[i] * S[j]) + (IF i = j THEN rn * n * n ELSE 0)]]]
\* Mean and covariance depend on the proportions of the samples only: a common factor of their multiplicities is left out.
Times(z, u) == Cardinality({k \in 1..Len(z) : z[k] = u})
Factor(z) == LET f == {Times(z, u) : u \in {z[k] : k \in 1..Len(z)}}
             IN CHOOSE g \in 1..Len(z) : (\A c \in f : c % g = 0) /\ (\A h \in g + 1..Len(z) : \E c \in f : c % h # 0)
Reduced(z) == LET g == Factor(z)
                  u == SetToSeq({z[k] : k \in 1..Len(z)})
              IN FoldLeft(LAMBDA acc, w : acc \o [k \in 1..Times(z, w) \div g |-> w], <<>>, u)
Det(a) == CASE Len(a) = 1 -> a[1][1]
            [] Len(a) = 2 -> a[1][1] * a[2][2] - a[1][2] * a[2][1]
            [] OTHER -> a[1][1] * (a[2][2] * a[3][3] - a[2][3] * a[3][2]) - a[1][2] * (a[2][1] * a[3][3] - a[2][3] * a[3][1])
                        + a[1][3] * (a[2][1] * a[3][2] - a[2][2] * a[3][1])
\* The adjugate of a symmetric matrix.
Adj(a) == CASE Len(a) = 1 -> <<<<1>>>>
            [] Len(a) = 2 -> <<<<a[2][2], -a[1][2]>>, <<-a[2][1], a[1][1]>>>>
            [] OTHER -> LET c(i, j, k, l) == a[i][j] * a[k][l] - a[i][l] * a[k][j]
                        IN <<<<c(2, 2, 3, 3), -c(1, 2, 3, 3), c(1, 2, 2, 3)>>, <<-c(2, 1, 3, 3), c(1, 1, 3, 3), -c(1, 1, 2, 3)>>, <<c(2, 1, 3, 2), -c(1, 1, 3, 2), c(1, 1, 2, 2)>>>>
Quadratic(m, v) == Dot(v, [i \in 1..Len(v) |-> Dot(m[i], v)])
\* Numerator (without the factor rd) and denominator of the squared distance of x.
Distance(st, x) == LET v == [i \in 1..Len(x) |-> st.n * x[i] - st.S[i]] IN <<Quadratic(Adj(st.A), v), Det(st.A)>>
\* num / den in units of 1 / 2^bits, rounded down, by long division.
Fixed(num, den, bits) == FoldLeft(LAMBDA acc, k : LET r == 2 * acc[2] IN <<2 * acc[1] + r \div den, r % den>>, <<num \div den, num % den>>, [k \in 1..bits |-> k])[1]
Bits == 12
Score(st, x) == LET q == Distance(st, x) IN IF q[1] \div q[2] > 100000 THEN 100000 * 4096 ELSE Fixed(q[1], q[2], Bits)
\* Beyond this distance the exponential of a likelihood vanishes in double precision, and classes are indistinguishable.
Vanished(st) == (1300 * 4096) \div st.rd
Seen(st, x) == LET s == Score(st, x) IN IF s > Vanished(st) THEN Vanished(st) ELSE s
\* A ranking lists every label once, in increasing distance, up to the resolution of the fixed point.
IsPermutation(r, labels) == Len(r) = Cardinality(labels) /\ {r[i] : i \in 1..Len(r)} = labels
Ranked(model, x, r) == \A i \in 1..Len(r) - 1 : Score(model[r[i]], x) <= Score(model[r[i + 1]], x) + 2
RankedSeen(model, x, r) == \A i \in 1..Len(r) - 1 : Seen(model[r[i]], x) <= Seen(model[r[i + 1]], x) + 2
Fit(xs, ys, rn, rd) == [c \in Labels(ys) |-> Stats(Members(xs, ys, c), rn, rd)]
=============================================================================
