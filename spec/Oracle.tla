-------------------------------- MODULE Oracle --------------------------------
(* Runs a deterministic specification on presented sessions (a record with fields cfg and ev, one per line of a file) *)
(* and emits the exact result of every event, for comparison with what the code returns.                              *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV

CONSTANTS InitOf(_), StepOf(_, _, _)

Sessions == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, l, st, y
ovars == <<t, l, st, y>>

OInit == /\ t \in 1..Len(Sessions)
         /\ l = 0
         /\ y = <<>>
         /\ st = InitOf(Sessions[t].cfg)
ONext == /\ l < Len(Sessions[t].ev)
         /\ LET r == StepOf(Sessions[t].cfg, st, Sessions[t].ev[l + 1])
            IN st' = r.st /\ y' = r.y
         /\ l' = l + 1
         /\ t' = t
Emit == l > 0 => CSVWrite("%1$s", <<ToJson([t |-> t, l |-> l, y |-> y])>>, IOEnv.OUT)
=============================================================================
