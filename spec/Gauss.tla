-------------------------------- MODULE Gauss --------------------------------
(* Exact complex arithmetic: a number is a pair <<re, im>> of integers (a Gaussian integer). *)
EXTENDS Integers, Sequences, SequencesExt

Z == <<0, 0>>
One == <<1, 0>>
CAdd(u, v) == <<u[1] + v[1], u[2] + v[2]>>
CSub(u, v) == <<u[1] - v[1], u[2] - v[2]>>
CNeg(u) == <<-u[1], -u[2]>>
CMul(u, v) == IF u[2] = 0 /\ v[2] = 0 THEN <<u[1] * v[1], 0>>
              ELSE <<u[1] * v[1] - u[2] * v[2], u[1] * v[2] + u[2] * v[1]>>
CConj(u) == <<u[1], -u[2]>>
CScale(k, u) == <<k * u[1], k * u[2]>>
CNorm2(u) == u[1] * u[1] + u[2] * u[2]

\* Sum over i in 1..Len(u) of u[i] * v[i].
CDot(u, v) == FoldLeftDomain(LAMBDA acc, i : CAdd(acc, CMul(u[i], v[i])), Z, u)
CSum(u) == FoldLeft(CAdd, Z, u)
\* Prepends x and drops the oldest element: a delay line, newest first.
CShift(s, x) == IF Len(s) <= 1 THEN <<x>> ELSE <<x>> \o SubSeq(s, 1, Len(s) - 1)
CZeros(n) == [i \in 1..n |-> Z]
CFill(n, x) == [i \in 1..n |-> x]
CPad(u, n) == IF Len(u) >= n THEN u ELSE u \o CZeros(n - Len(u))
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Abs(a) == IF a >= 0 THEN a ELSE -a
=============================================================================
