-------------------------------- MODULE PidMC --------------------------------
(* Every reachable state of a PID filter whose samples and integral are small: the state graph is finite because the  *)
(* limit bounds the integral (that is the property), so histories of every length are covered.  Transitions are       *)
(* emitted, and the harness replays walks that cover all of them.                                                     *)
EXTENDS Pid, TLC, Json, IOUtils, CSV

CONSTANTS Samples, Limits, Gains, Bound

VARIABLES b, q, act
vars == <<b, q>>

Init == /\ b \in Gains
        /\ q \in {[PidInit EXCEPT !.limit = k] : k \in Limits}
        /\ act = [op |-> "init", x |-> <<>>, y |-> <<>>]
Filter(x) == LET r == PidChunk(b, q, x) IN q' = r.q /\ act' = [op |-> "filter", x |-> x, y |-> r.y] /\ UNCHANGED b
SetLimit(k) == k # q.limit /\ q' = [q EXCEPT !.limit = k] /\ act' = [op |-> "limit", x |-> <<<<k, 0>>>>, y |-> <<>>] /\ UNCHANGED b
Reset(x) == q' = [q EXCEPT !.p = x, !.i = x] /\ act' = [op |-> "reset", x |-> <<x>>, y |-> <<>>] /\ UNCHANGED b
Next == \/ \E x \in Samples : Filter(<<x>>)
        \/ \E k \in Limits : SetLimit(k)
        \/ \E x \in Samples : Reset(x)

InBound == Abs(q.i[1]) <= Bound
TypeOK == q.limit \in Limits
\* An integral below the limit stays below it for every signal (as long as neither reset nor limit change intervenes).
LimitHolds == [][(act'.op = "filter" /\ Below(q.i, q.limit)) => Below(q'.i, q'.limit)]_<<b, q, act>>
\* A filtered sample changes the integral by itself or not at all, and only a rejected one changes it not at all.
AllOrNothing == [][act'.op = "filter" => \/ q'.i = CAdd(q.i, act'.x[1])
                                         \/ q'.i = q.i /\ ~ Below(CAdd(q.i, act'.x[1]), q.limit)]_<<b, q, act>>
View == vars
EmitInit == TLCGet("level") = 1 => CSVWrite("%1$s", <<ToJson([init |-> q, b |-> b])>>, IOEnv.OUT)
EmitStep == CSVWrite("%1$s", <<ToJson([b |-> b, f |-> q, a |-> act', t |-> q'])>>, IOEnv.OUT)

G(x, y, z) == <<<<x, 0>>, <<y, 0>>, <<z, 0>>>>
MCGains == {G(1, 0, 0), G(0, 1, 0), G(0, 0, 1), G(2, 3, -5)}
MCSamples == {<<x, 0>> : x \in {-3, -1, 0, 1, 4}}
=============================================================================
