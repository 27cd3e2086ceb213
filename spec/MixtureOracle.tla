----------------------------- MODULE MixtureOracle -----------------------------
(* A mixture whose components are known, because the samples of each class fall in clusters far apart: the weight and *)
(* squared distance (weight, its divisor, numerator and denominator) of every component of every class.               *)
EXTENDS Gaussian, Oracle

XInit(cfg) == [k \in {} |-> 0]
Of(xs, ys, cs, label) == SelectSeq([i \in 1..Len(xs) |-> <<ys[i], cs[i], xs[i]>>], LAMBDA p : p[1] = label)
Component(z, k, rn, rd) == LET m == SelectSeq(z, LAMBDA p : p[2] = k)
                           IN [w |-> <<Len(m), Len(z)>>, st |-> Stats(Reduced([i \in 1..Len(m) |-> m[i][3]]), rn, rd)]
XStep(cfg, model, e) ==
    CASE e.op = "fit" ->
           IF e.kind # "" THEN [st |-> model, y |-> <<>>]
           ELSE [st |-> [c \in Labels(e.y) |-> LET z == Of(e.x, e.y, e.c, c) IN [k \in 1..cfg.order |-> Component(z, k, cfg.r[1], cfg.r[2])]], y |-> <<>>]
      [] OTHER ->
           [st |-> model,
            y |-> [i \in 1..Len(e.x) |-> [j \in 1..Len(e.labels) |-> LET c == e.labels[j] IN
                     [k \in 1..cfg.order |-> LET q == Distance(model[c][k].st, e.x[i]) IN <<model[c][k].w[1], model[c][k].w[2], cfg.r[2] * q[1], q[2]>>]]]]
=============================================================================
