------------------------------ MODULE TraceCheck ------------------------------
(* Decides recorded traces against a specification.  A trace is a record with fields cfg and ev, one trace per line of *)
(* a file.  A specification supplies InitOf(cfg), its initial state, and StepOf(cfg, st, e), which returns a record    *)
(* with the next state st and a verdict v: "ok", or the name of the clause an observed event breaks.  Every trace     *)
(* yields exactly one report: accepted, or rejected at an event by a clause.                                          *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV

CONSTANTS InitOf(_), StepOf(_, _, _)

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, l, st, v
tvars == <<t, l, st, v>>

TInit == /\ t \in 1..Len(Traces)
         /\ l = 1
         /\ v = "ok"
         /\ st = InitOf(Traces[t].cfg)

TNext == /\ v = "ok"
         /\ l <= Len(Traces[t].ev)
         /\ LET r == StepOf(Traces[t].cfg, st, Traces[t].ev[l])
            IN /\ st' = r.st
               /\ v' = r.v
         /\ l' = l + 1
         /\ t' = t

Report == /\ v # "ok" => CSVWrite("%1$s;%2$s;%3$s", <<t, l - 1, v>>, IOEnv.OUT)
          /\ (v = "ok" /\ l = Len(Traces[t].ev) + 1) => CSVWrite("%1$s;%2$s;%3$s", <<t, l, v>>, IOEnv.OUT)
=============================================================================
