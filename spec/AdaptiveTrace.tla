---------------------------- MODULE AdaptiveTrace ----------------------------
(* Long runs of the adaptive filters, decided sample by sample in fixed point (units 2^-12): every observed reference,  *)
(* error and coefficient follows from the one before by the update law of Adaptive.  The exponentials zeta^r are given *)
(* as a table in the same units; a sample is <<index of its exponential, fixed point value>>.                          *)
EXTENDS Gauss, TraceCheck

Unit == 4096
Half(a) == IF a >= 0 THEN (a + Unit \div 2) \div Unit ELSE -((-a + Unit \div 2) \div Unit)
FMul(u, w) == LET p == CMul(u, w) IN <<Half(p[1]), Half(p[2])>>
\* The rate applied to a number.
Part(u, rn, rd) == <<(u[1] * rn) \div rd, (u[2] * rn) \div rd>>
Sane(u) == Abs(u[1]) < 8 * Unit /\ Abs(u[2]) < 8 * Unit
Near(u, w) == Sane(u) /\ Sane(w) /\ Abs(u[1] - w[1]) <= 8 /\ Abs(u[2] - w[2]) <= 8
Exp(cfg, r) == cfg.table[(r % cfg.L) + 1]

\* b is the coefficient due, p the phase of the bandpass exponential and s the previous unit sample of the frequency filter.
XInit(cfg) == [b |-> IF cfg.kind = "band" THEN Z ELSE Exp(cfg, cfg.m), p |-> 0, m |-> cfg.m, s |-> 0, rn |-> cfg.rn, rd |-> cfg.rd]
XSample(cfg, q, d) ==
    LET x == Exp(cfg, IF cfg.kind = "band" THEN q.p ELSE q.s)
        in == IF cfg.kind = "band" THEN d.x ELSE Exp(cfg, d.k)
        clause == IF ~ Near(d.b, q.b) THEN "the coefficient moves by the rate times the error times the conjugate of the reference sample"
             ELSE IF cfg.kind = "band" /\ ~ Near(d.y, FMul(d.b, x)) THEN "the reference is the coefficient times the exponential"
             ELSE IF cfg.kind = "freq" /\ ~ (Sane(d.y) /\ Near(FMul(d.a, d.y), d.b)) THEN "the reference is the argument of the coefficient"
             ELSE IF ~ Near(d.e, CSub(in, FMul(d.b, x))) THEN "the error is the sample less the reference"
             ELSE "ok"
    IN [q |-> [q EXCEPT !.b = CAdd(d.b, Part(FMul(d.e, CConj(x)), q.rn, q.rd)), !.p = (q.p + q.m) % cfg.L, !.s = d.k], v |-> clause]
XStep(cfg, q, e) ==
    CASE e.op = "filter" ->
            IF e.e # "" THEN [st |-> q, v |-> "filter raised an error"]
            ELSE IF Len(e.d) # e.n THEN [st |-> q, v |-> "one output per sample"]
            ELSE LET r == FoldLeft(LAMBDA acc, d : IF acc.v # "ok" THEN acc ELSE XSample(cfg, acc.q, d), [q |-> q, v |-> "ok"], e.d)
                 IN [st |-> r.q, v |-> r.v]
      [] e.op = "rate" -> [st |-> [q EXCEPT !.rn = e.x[1], !.rd = e.x[2]], v |-> IF e.e # "" THEN "a setting in range is accepted" ELSE "ok"]
      [] e.op = "frequency" -> [st |-> IF cfg.kind = "band" THEN [q EXCEPT !.m = e.x[1]] ELSE [q EXCEPT !.b = Exp(cfg, e.x[1])],
                                v |-> IF e.e # "" THEN "a setting in range is accepted" ELSE "ok"]
      [] OTHER -> [st |-> q, v |-> "unknown event"]
=============================================================================
