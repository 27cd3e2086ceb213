--------------------------- MODULE PolyphaseRateMC ---------------------------
(* Every history of bounded length: chunks of one to three samples, rate changes and resets.  Samples are numbered so *)
(* that windows tell them apart.                                                                                      *)
EXTENDS PolyphaseRate, TLC, Json, IOUtils, CSV

CONSTANTS Depth, Rates, Others
VARIABLES s, h, n, m, total
vars == <<s, h, n, m, total>>
Init == /\ \E r \in Rates : s = PpInit(r[1], r[2]) /\ h = <<[op |-> "init", x |-> r, y |-> <<>>]>>
        /\ n = 0 /\ m = 0 /\ total = 0
Filter(k) == LET x == [j \in 1..k |-> total + j]
                 r == PpChunk(s, x)
             IN /\ s' = r.s
                /\ h' = Append(h, [op |-> "filter", x |-> x, y |-> r.y])
                /\ n' = n + k /\ m' = m + Len(Sure(r.y)) /\ total' = total + k
Rate(r) == /\ Last(h).op = "filter"
           /\ s' = PpRate(s, r[1], r[2])
           /\ h' = Append(h, [op |-> "rate", x |-> r, y |-> <<>>])
           /\ IF r[1] * s.q = r[2] * s.p THEN UNCHANGED <<n, m>> ELSE n' = 0 /\ m' = 0
           /\ UNCHANGED total
Reset == /\ Last(h).op = "filter"
         /\ s' = PpReset(s, 100)
         /\ h' = Append(h, [op |-> "reset", x |-> <<100>>, y |-> <<>>])
         /\ UNCHANGED <<n, m, total>>
Next == Len(h) <= Depth /\ (\/ \E k \in 1..3 : Filter(k)
                            \/ \E r \in Others : Rate(r)
                            \/ Rate(<<s.p, s.q>>)
                            \/ Reset)
\* The rate is realized without bias: outputs since the rate was set are the least integer not below n times the rate.
CountIsCeil == m = Ceil(n, s.p, s.q)
\* Every sample is consumed, so the next output lies after the current sample; outputs are evenly spaced from time zero.
Consumed == s.i >= 0 /\ s.i = m * s.q - n * s.p
Emit == Len(h) = Depth + 1 => CSVWrite("%1$s", <<ToJson([ev |-> h])>>, IOEnv.OUT)
MCRates == {<<1, 1>>, <<2, 1>>, <<1, 2>>, <<3, 4>>, <<4, 3>>, <<1, 4>>, <<5, 2>>, <<8, 7>>}
MCOthers == {<<1, 2>>, <<2, 1>>}
=============================================================================
