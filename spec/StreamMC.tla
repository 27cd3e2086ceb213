------------------------------- MODULE StreamMC -------------------------------
(* Every partition into calls of every arrangement of samples and controls of bounded length, on every machine.      *)
EXTENDS Stream, TLC, Json, IOUtils, CSV

CONSTANTS Samples, Controls
ASSUME Samples \in Nat /\ Controls \in Nat

VARIABLES machine, atoms, calls, s, y
\* atoms: everything consumed so far; calls: how it was grouped; s: the state; y: everything produced so far.
vars == <<machine, atoms, calls, s, y>>

Count(kind) == Len(SelectSeq(atoms, LAMBDA a : a.k = kind))
Init == /\ machine \in Machines
        /\ atoms = <<>> /\ calls = <<>> /\ y = <<>>
        /\ s = InitOfMachine(machine)

Sample(i) == [k |-> "s", n |-> i]
Feed(k) == LET new == [i \in 1..k |-> Sample(Count("s") + i)]
               r == RunCall(LAMBDA p, a : StepOfMachine(machine, p, a), s, new)
           IN /\ atoms' = atoms \o new
              /\ calls' = Append(calls, k)
              /\ s' = r.s /\ y' = y \o r.y
              /\ UNCHANGED machine
Control == LET a == [k |-> "c", n |-> Count("c") + 5]
           IN /\ atoms' = Append(atoms, a)
              /\ calls' = Append(calls, 0)
              /\ s' = StepOfMachine(machine, s, a).s
              /\ UNCHANGED <<machine, y>>
\* Controls are made between samples: adjacent controls add nothing.
Next == \/ \E k \in 1..(Samples - Count("s")) : Feed(k)
        \/ /\ Count("c") < Controls
           /\ IF calls = <<>> THEN TRUE ELSE Last(calls) # 0
           /\ Control

\* However the atoms were grouped, the state and the output are those of presenting them one by one.
One == RunCall(LAMBDA p, a : StepOfMachine(machine, p, a), InitOfMachine(machine), atoms)
Equivalent == s = One.s /\ y = One.y
\* The free machine produces one output per sample: its whole past.
FreeOutput == machine = "free" =>
    /\ Len(y) = Count("s")
    /\ \A i \in 1..Len(y) : y[i] = SubSeq(atoms, 1, Len(y[i])) /\ Last(y[i]) = Sample(i)
\* Controls change nothing that was produced before them.
Past == [][SubSeq(y', 1, Len(y)) = y]_vars

Emit == (machine = "free" /\ Count("s") = Samples) => CSVWrite("%1$s", <<ToJson([calls |-> calls])>>, IOEnv.OUT)
=============================================================================
