--------------------------------- MODULE Pid ---------------------------------
(* Proportional, integral, derivative filter.  State: the previous sample p, the integral i, and the limit (in the same *)
(* units as samples; -1 stands for no limit).  A sample is integrated unless that would bring the magnitude of the      *)
(* integral to or beyond the limit.                                                                                   *)
EXTENDS Gauss

PidInit == [p |-> Z, i |-> Z, limit |-> -1]
Below(v, limit) == limit = -1 \/ (Abs(v[1]) < limit /\ Abs(v[2]) < limit /\ CNorm2(v) < limit * limit)
PidSample(b, q, x) ==
    LET i == IF Below(CAdd(q.i, x), q.limit) THEN CAdd(q.i, x) ELSE q.i
    IN [q |-> [q EXCEPT !.p = x, !.i = i],
        y |-> CAdd(CMul(b[1], x), CAdd(CMul(b[2], i), CMul(b[3], CSub(x, q.p))))]
PidChunk(b, q, x) ==
    FoldLeft(LAMBDA acc, u : LET r == PidSample(b, acc.q, u) IN [q |-> r.q, y |-> Append(acc.y, r.y)], [q |-> q, y |-> <<>>], x)
=============================================================================
