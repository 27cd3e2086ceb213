---------------------------- MODULE SignatureTrace ----------------------------
(* A trace is a sequence of forms of one call with the name of its outcome, zero for an error.  Forms of the same       *)
(* meaning have the same outcome, and ill forms are errors that change nothing.                                        *)
EXTENDS Signature, TraceCheck

XInit(cfg) == <<>>
Known(q, m) == {i \in 1..Len(q) : q[i].m = m}
XStep(cfg, q, e) ==
    LET sig == Table[cfg.c]
        f == [pos |-> e.pos, kw |-> e.kw]
    IN IF ~ Well(sig, f) THEN [st |-> q, v |-> IF e.out # 0 THEN "an ill formed call was accepted" ELSE IF e.changed THEN "an ill formed call changed the condition" ELSE "ok"]
       ELSE LET m == Meaning(sig, f)
            IN IF Known(q, m) = {} THEN [st |-> Append(q, [m |-> m, out |-> e.out]), v |-> "ok"]
               ELSE [st |-> q, v |-> IF \A i \in Known(q, m) : q[i].out = e.out THEN "ok" ELSE "forms of the same meaning have different outcomes"]
=============================================================================
