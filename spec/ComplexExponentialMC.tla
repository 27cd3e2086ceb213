------------------------- MODULE ComplexExponentialMC -------------------------
(* All phases and frequencies of a grid: a finite state graph that covers histories of every length.                  *)
EXTENDS ComplexExponential, TLC, Json, IOUtils, CSV

CONSTANTS K, Frequencies
VARIABLES p, act, total
Init == /\ p \in -K..K
        /\ act = [op |-> "init", x |-> <<p>>, y |-> <<>>]
        /\ total = p
Filter(f) == LET r == CeChunk(K, p, <<f>>)
             IN p' = r.p /\ act' = [op |-> "filter", x |-> <<f>>, y |-> r.y] /\ total' = (total + f) % (2 * K)
SetPhase(f) == p' = f /\ act' = [op |-> "phase", x |-> <<f>>, y |-> <<>>] /\ total' = f
Reject(op, f) == UNCHANGED <<p, total>> /\ act' = [op |-> op, x |-> <<f>>, y |-> <<>>]
Next == \/ \E f \in Frequencies : Filter(f)
        \/ \E f \in {-K, 0, K} : SetPhase(f)
        \/ \E f \in {-K - 1, K + 1, 3 * K} : Reject("reject phase", f) \/ Reject("reject filter", f)
        \/ Reject("reject complex", 1) \/ Reject("reject empty", 0)
InBounds == -K <= p /\ p <= K
\* The phase is the sum of everything presented, modulo 2.
Accumulates == (p - total) % (2 * K) = 0
\* Presenting two frequencies at once is presenting one after the other.
Grouping == \A f, g \in {-K, -1, 0, 1, K} : LET a == CeChunk(K, p, <<f>>) b == CeChunk(K, a.p, <<g>>) c == CeChunk(K, p, <<f, g>>)
                                              IN c.p = b.p /\ c.y = a.y \o b.y
View == <<p, total>>
EmitInit == TLCGet("level") = 1 => CSVWrite("%1$s", <<ToJson([init |-> p])>>, IOEnv.OUT)
EmitStep == CSVWrite("%1$s", <<ToJson([f |-> p, a |-> act', t |-> p'])>>, IOEnv.OUT)
=============================================================================
