----------------------------- MODULE GaussianTrace -----------------------------
(* Decides recorded sessions of a Gaussian model (or a mixture of a single component per class).                      *)
EXTENDS Gaussian, TraceCheck

None == [k \in {} |-> 0]
GInit(cfg) == [model |-> None, dim |-> 0, rn |-> cfg.r[1], rd |-> cfg.r[2]]
Judge(cfg, q, e, Ranks(_, _, _)) ==
    CASE e.op = "regularize" -> IF e.r[1] < 0 THEN [st |-> q, v |-> IF e.e # "" THEN "ok" ELSE "a negative regularization is rejected"]
                                ELSE [st |-> [q EXCEPT !.rn = e.r[1], !.rd = e.r[2]], v |-> IF e.e = "" THEN "ok" ELSE "a regularization in range is accepted"]
      [] e.op = "fit" -> IF e.kind # "" THEN [st |-> q, v |-> IF e.e # "" THEN "ok" ELSE "an invalid fit is rejected"]
                         ELSE [st |-> [q EXCEPT !.model = Fit(e.x, e.y, q.rn, q.rd), !.dim = Len(e.x[1])], v |-> IF e.e = "" THEN "ok" ELSE "fit raised an error"]
      [] e.op = "predict" ->
            IF e.kind # "" \/ q.dim = 0 \/ Len(e.x[1]) # q.dim
            THEN [st |-> q, v |-> IF e.e # "" THEN "ok" ELSE "a prediction without a fit of that dimension is rejected"]
            ELSE [st |-> q,
                  v |-> IF e.e # "" THEN "predict raised an error"
                        ELSE IF Len(e.p) # Len(e.x) THEN "one prediction per sample"
                        ELSE IF \E i \in 1..Len(e.x) : ~ IsPermutation(e.p[i], DOMAIN q.model) THEN "a prediction lists every class label exactly once"
                        ELSE IF \E i \in 1..Len(e.x) : ~ Ranks(q.model, e.x[i], e.p[i]) THEN "a prediction is ordered by Mahalanobis distance" ELSE "ok"]
      [] OTHER -> [st |-> q, v |-> "unknown event"]
GStep(cfg, q, e) == Judge(cfg, q, e, Ranked)
MStep(cfg, q, e) == Judge(cfg, q, e, RankedSeen)
=============================================================================
