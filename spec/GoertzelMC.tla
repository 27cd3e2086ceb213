------------------------------ MODULE GoertzelMC ------------------------------
(* Every history of bounded length of a Goertzel filter.  The recursion it is named after (two recursive terms and    *)
(* one forward term, cleared at each complete window) is run beside the declarative windowed transform.               *)
EXTENDS Goertzel, TLC, Json, IOUtils, CSV

CONSTANTS Depth, L, Windows, Samples

VARIABLES w, q, rec, h, seen
Init == /\ w \in Windows
        /\ q \in {GoInit(m) : m \in {0, 1, L \div 2 - 1, L \div 2, -1}}
        /\ rec = [s1 |-> CyZero(L), s2 |-> CyZero(L), out |-> <<>>]
        /\ h = <<[op |-> "init", x |-> <<q.m>>, y |-> <<>>]>>
        /\ seen = 0
\* s0 = w x + 2 cos(pi f) s1 - s2, output s0 - zeta^-m s1
RecStep(r, m, k, x) ==
    LET s0 == CySub(CyAdd(CyMono(L, 0, CMul(w[k], x)), CyAdd(CyRot(r.s1, m), CyRot(r.s1, -m))), r.s2)
    IN IF k = Len(w) THEN [s1 |-> CyZero(L), s2 |-> CyZero(L), out |-> Append(r.out, CySub(s0, CyRot(r.s1, -m)))]
       ELSE [s1 |-> s0, s2 |-> r.s1, out |-> r.out]
Filter(x) == LET r == GoSample(L, w, 1, q, x)
             IN /\ q' = r.q
                /\ rec' = RecStep([rec EXCEPT !.out = <<>>], q.m, Len(q.buf) + 1, x)
                /\ h' = Append(h, [op |-> "filter", x |-> <<x>>, y |-> r.y])
                /\ seen' = seen + 1
                /\ w' = w
Retune(m) == /\ q.buf = <<>> /\ m # q.m
             /\ q' = [q EXCEPT !.m = m]
             /\ h' = Append(h, [op |-> "frequency", x |-> <<m>>, y |-> <<>>])
             /\ UNCHANGED <<w, rec, seen>>
Next == /\ Len(h) <= Depth
        /\ \/ \E x \in Samples : Filter(x)
           \/ \E m \in {0, 1} : Last(h).op # "frequency" /\ Retune(m)

CyNormalSeq(s) == [i \in 1..Len(s) |-> CyNormal(s[i])]
\* Before reduction by the relations of the ring, the recursion yields zeta^(m (N-1)) times the transform exactly.
RecursionIsTransform == (Last(h).op = "filter") => CyNormalSeq(rec.out) = CyNormalSeq(Last(h).y)
\* One output per N samples from the first ever presented.
OneOutputPerWindow == /\ Len(q.buf) = seen % Len(w)
                      /\ (Last(h).op = "filter") => Len(Last(h).y) = (IF seen % Len(w) = 0 THEN 1 ELSE 0)
Emit == Len(h) = Depth + 1 => CSVWrite("%1$s", <<ToJson([w |-> w, ev |-> h])>>, IOEnv.OUT)
R(s) == [i \in 1..Len(s) |-> <<s[i], 0>>]
MCWindows == {R(<<2>>), R(<<1, -1>>), R(<<1, 2, 3>>), R(<<0, 2, -1, 1>>)}
MCSamples == {<<1, 0>>, <<-2, 0>>, <<0, 1>>, <<0, 0>>}
=============================================================================
