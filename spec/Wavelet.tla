------------------------------- MODULE Wavelet -------------------------------
(* Wavelet analysis and synthesis.                                                                                    *)
(*                                                                                                                   *)
(* h and g are the low and high pass analysis filters.  A level of analysis of a line x of even length L places       *)
(*    Sum over k of h[k] x[2 m + 1 - k] at m,  Sum over k of g[k] x[2 m + 1 - k] at L / 2 + m                         *)
(* and a level of synthesis of a line y, with filters hh and gg, yields at i                                          *)
(*    2 * Sum over k, i - k even, of hh[k] y[(i - k) / 2] + gg[k] y[L / 2 + (i - k) / 2].                             *)
(* A level of a matrix applies to the lines of length greater than one, along rows then columns (synthesis: columns   *)
(* then rows), and the next level of analysis applies to the leading block of half the rows and half the columns.     *)
EXTENDS Gauss

WvAccepted(shape, count) == /\ count > 0
                            /\ Len(shape) \in {1, 2}
                            /\ \A i \in 1..Len(shape) : shape[i] > 0 /\ (shape[i] = 1 \/ shape[i] % (2 ^ count) = 0)
Half(n) == Max2(n \div 2, 1)
\* The blocks of successive levels, as <<rows, columns>>.
RECURSIVE WvBlocks(_, _, _)
WvBlocks(r, c, count) == IF count = 0 THEN <<>> ELSE <<<<r, c>>>> \o WvBlocks(Half(r), Half(c), count - 1)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
\* The passes over lines: <<axis, block rows, block columns>>; axis 0 along rows (lines of block columns), 1 along columns.
WvPasses(r, c, count, inverse) ==
    LET b == WvBlocks(r, c, count)
        Level(q) == (IF q[2] > 1 THEN <<<<0, q[1], q[2]>>>> ELSE <<>>) \o (IF q[1] > 1 THEN <<<<1, q[1], q[2]>>>> ELSE <<>>)
        all == FoldLeft(LAMBDA acc, q : acc \o Level(q), <<>>, b)
    IN IF inverse THEN Rev(all) ELSE all

\* What one output cell of a pass over a line of length n reads: for each filter f, taps k = k0, k0 + dk, .. k1 times the
\* cells at + (k0 - k) / step; a record with cells src0, src0 - 1 , ...
WvReads(n, taps, inverse, i) ==
    IF ~ inverse THEN LET f == i \div (n \div 2)
                          m == i % (n \div 2)
                      IN <<[f |-> f, k0 |-> 0, dk |-> 1, k1 |-> Min2(taps - 1, 2 * m + 1), src |-> 2 * m + 1, gain |-> 1]>>
    ELSE [f \in 1..2 |-> [f |-> f - 1, k0 |-> i % 2, dk |-> 2, k1 |-> Min2(taps - 1, i), src |-> (i \div 2) + (f - 1) * (n \div 2), gain |-> 2]]
\* The value of such a cell, F being the pair of filters; k runs over the taps, j counts them.
WvRead(F, x, r) ==
    LET count == IF r.k1 < r.k0 THEN 0 ELSE (r.k1 - r.k0) \div r.dk + 1
    IN FoldLeft(LAMBDA acc, j : CAdd(acc, CScale(r.gain * F[r.f + 1][r.k0 + r.dk * j + 1], x[r.src - j + 1])), Z, [j \in 1..count |-> j - 1])
WvLine(F, x, inverse) ==
    [i \in 1..Len(x) |-> LET rs == WvReads(Len(x), Len(F[1]), inverse, i - 1)
                         IN FoldLeft(LAMBDA acc, r : CAdd(acc, WvRead(F, x, r)), Z, rs)]
\* One pass over a matrix; over divides each result (a power of two that divides exactly).
Over(u, n) == <<u[1] \div n, u[2] \div n>>
WvPass(F, y, p, inverse, over) ==
    LET R == p[2]
        C == p[3]
        lines == IF p[1] = 0 THEN [i \in 1..R |-> WvLine(F, SubSeq(y[i], 1, C), inverse)]
                 ELSE [j \in 1..C |-> WvLine(F, [i \in 1..R |-> y[i][j]], inverse)]
    IN [i \in 1..Len(y) |-> [j \in 1..Len(y[i]) |->
            IF i > R \/ j > C THEN y[i][j] ELSE Over(IF p[1] = 0 THEN lines[i][j] ELSE lines[j][i], over)]]
WvTransform(F, y, count, inverse, over) ==
    FoldLeft(LAMBDA acc, p : WvPass(F, acc, p, inverse, over), y, WvPasses(Len(y), Len(y[1]), count, inverse))
=============================================================================
