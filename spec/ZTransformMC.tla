----------------------------- MODULE ZTransformMC -----------------------------
(* Roots are added one (or one conjugate pair) at a time.                                                             *)
EXTENDS ZTransform, FiniteSets, TLC, Json, IOUtils, CSV

CONSTANTS Poles, Zeros, Taus, Depth
VARIABLES tau, poles, zeros, k, m
vars == <<tau, poles, zeros, k, m>>
Init == tau \in Taus /\ poles = <<>> /\ zeros = <<>> /\ k = <<>> /\ m = <<>>
Conjugates(p) == IF p[2] = 0 THEN <<p>> ELSE <<p, CConj(p)>>
Has(s, p) == \E i \in 1..Len(s) : s[i] = p
\* Canonical order: roots are added in one order only.
Order(p) == 100 * p[1] + p[2]
After(s, p) == IF Len(s) = 0 THEN TRUE ELSE Order(p) > Order(<<s[Len(s)][1], Abs(s[Len(s)][2])>>)
Pole == /\ Len(zeros) = 0
        /\ \E p \in Poles : p # <<tau, 0>> /\ p # Z /\ ~ Has(poles, p) /\ After(poles, p) /\ Len(poles) + Len(Conjugates(p)) <= Depth /\ poles' = poles \o Conjugates(p)
        /\ UNCHANGED <<tau, zeros, k, m>>
Zero == /\ Len(poles) > 0
        /\ \E p \in Zeros : p # <<tau, 0>> /\ p # Z /\ ~ Has(zeros, p) /\ ~ Has(poles, p) /\ After(zeros, p) /\ Len(zeros) + Len(Conjugates(p)) <= Len(poles) /\ zeros' = zeros \o Conjugates(p)
        /\ UNCHANGED <<tau, poles, k, m>>
Next == Pole \/ Zero
Spec == Init /\ [][Next]_vars
R == ZtBilinear(tau, poles, zeros)
IsReal == \A s \in {R.a, R.b} : \A i \in 1..Len(s) : s[i][2] = 0
OrderKept == Len(R.a) = Len(poles) + 1 /\ R.a[1] # Z /\ Len(R.b) = Len(R.a)
\* s = 0 maps to z = 1: the ratio of the mapped polynomials at one is 2^n times that of the s-domain polynomials at zero.
ZeroFrequency == /\ PSum(R.a) = CScale(2 ^ Len(poles), PScale(<<(-1) ^ Len(poles), 0>>, <<FoldLeft(CMul, One, poles)>>)[1])
                 /\ PSum(R.a) # Z /\ PSum(R.b) # Z
Stable == \A i \in 1..Len(poles) : (poles[i][1] < 0) <=> Inside(tau, poles[i])
\* The s-domain polynomial at s = tau (z at infinity) is the leading coefficient of the mapped one.
Infinity == R.a[1] = FoldLeft(LAMBDA acc, c : CAdd(CScale(tau, acc), c), Z, ZtPolynomial(poles))
\* What is computed modulo an integer is the exact result modulo that integer.
Reduced(mod, r) == [a |-> [i \in 1..Len(r.a) |-> MNum(mod, r.a[i])], b |-> [i \in 1..Len(r.b) |-> MNum(mod, r.b[i])]]
Modular == \A mod \in {7, 97, 32749} : Reduced(mod, MBilinear(mod, tau, poles, zeros)) = Reduced(mod, R)
ASSUME \A n \in {<<1>>, <<2, 1>>, <<1, 3, 2>>, <<4, 1, 2>>, <<-1, 2, 1, 3>>} : \A z \in {<<>>, <<5>>} : \A mod \in {7, 97, 32749} :
          Len(z) < Len(n) => Reduced(mod, MImpulse(mod, n, z)) = Reduced(mod, ZtImpulse(n, z))
Emit == Len(poles) > 0 => CSVWrite("%1$s", <<ToJson([tau |-> tau, poles |-> poles, zeros |-> zeros, u |-> ZtPolynomial(poles), v |-> ZtPolynomial(zeros), r |-> R])>>, IOEnv.OUT)
MCPoles == {<<-1, 0>>, <<-3, 0>>, <<-4, 0>>, <<-1, 1>>, <<-2, 3>>, <<2, 0>>, <<1, 2>>, <<0, 1>>}
MCZeros == {<<-2, 0>>, <<0, 2>>, <<3, 0>>, <<-1, 4>>}
=============================================================================
