---------------------------------- MODULE Sha3 ----------------------------------
(* SHA3-256 (FIPS 202) of a sequence of bytes.  A lane of 64 bits is four limbs of 16 bits, least significant first; *)
(* a state is 25 lanes, where lane 5 y + x + 1 is the lane (x, y).                                                   *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

LOCAL P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
LaneXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
LaneChi(a, b, c) == [i \in 1..4 |-> a[i] ^^ ((65535 - b[i]) & c[i])]
\* Rotation to the left by r: whole limbs, then bits.
LaneRot(a, r) == LET w == r \div 16
                     k == r % 16
                     m(i) == a[((i - 1 - w + 8) % 4) + 1]
                 IN [i \in 1..4 |-> ((m(i) * P2[k + 1]) % 65536) + (m(((i + 2) % 4) + 1) \div P2[17 - k])]

LOCAL Rho == <<0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39, 41, 45, 15, 21, 8, 18, 2, 61, 56, 14>>
LOCAL RC == <<<<1, 0, 0, 0>>, <<32898, 0, 0, 0>>, <<32906, 0, 0, 32768>>, <<32768, 32768, 0, 32768>>, <<32907, 0, 0, 0>>,
              <<1, 32768, 0, 0>>, <<32897, 32768, 0, 32768>>, <<32777, 0, 0, 32768>>, <<138, 0, 0, 0>>, <<136, 0, 0, 0>>,
              <<32777, 32768, 0, 0>>, <<10, 32768, 0, 0>>, <<32907, 32768, 0, 0>>, <<139, 0, 0, 32768>>, <<32905, 0, 0, 32768>>,
              <<32771, 0, 0, 32768>>, <<32770, 0, 0, 32768>>, <<128, 0, 0, 32768>>, <<32778, 0, 0, 0>>, <<10, 32768, 0, 32768>>,
              <<32897, 32768, 0, 32768>>, <<32896, 0, 0, 32768>>, <<1, 32768, 0, 0>>, <<32776, 32768, 0, 32768>>>>

Force(q) == FoldLeft(LAMBDA acc, u : Append(acc, u), <<>>, q)
Round(s, rc) ==
    LET c == Force([x \in 1..5 |-> LaneXor(LaneXor(LaneXor(s[x], s[x + 5]), LaneXor(s[x + 10], s[x + 15])), s[x + 20])])
        d == Force([x \in 1..5 |-> LaneXor(c[((x + 3) % 5) + 1], LaneRot(c[(x % 5) + 1], 1))])
        b == Force([n \in 1..25 |->
                \* The lane (X, Y) of the result of rho and pi is the lane (x, y) with X = y and Y = 2 x + 3 y.
                LET bx == (n - 1) % 5
                    by == (n - 1) \div 5
                    y0 == bx
                    x0 == (bx + 3 * by) % 5
                    i == 5 * y0 + x0 + 1
                IN Force(LaneRot(LaneXor(s[i], d[x0 + 1]), Rho[i]))])
        e == Force([n \in 1..25 |-> LET x == (n - 1) % 5
                                        row == n - x
                                    IN Force(LaneChi(b[n], b[row + ((x + 1) % 5)], b[row + ((x + 2) % 5)]))])
    IN [e EXCEPT ![1] = LaneXor(@, rc)]
Keccak(s) == FoldLeft(LAMBDA acc, rc : Round(acc, rc), s, RC)

Rate == 136
Padded(m) == LET r == Rate - (Len(m) % Rate)
             IN m \o (IF r = 1 THEN <<134>> ELSE <<6>> \o [i \in 1..(r - 2) |-> 0] \o <<128>>)
LaneOf(m, at) == [i \in 1..4 |-> m[at + 2 * i - 1] + 256 * m[at + 2 * i]]
Absorb(s, m, at) == Keccak(Force([n \in 1..25 |-> IF n <= Rate \div 8 THEN LaneXor(s[n], LaneOf(m, at + 8 * (n - 1))) ELSE s[n]]))
RECURSIVE Sponge(_, _, _)
Sponge(s, m, at) == IF at >= Len(m) THEN s ELSE Sponge(Absorb(s, m, at), m, at + Rate)
Digest(m) == LET s == Sponge([n \in 1..25 |-> <<0, 0, 0, 0>>], Padded(m), 0)
             IN [i \in 1..32 |-> LET limb == s[((i - 1) \div 8) + 1][(((i - 1) % 8) \div 2) + 1]
                                 IN IF i % 2 = 1 THEN limb % 256 ELSE limb \div 256]
=============================================================================
