------------------------------ MODULE ComponentMC ------------------------------
(* Every interleaving of bounded length of what may happen to instances of a component, on a small machine whose     *)
(* instances and encodings hold values: its results are those of the history of each instance alone.                 *)
EXTENDS Component, FiniteSets, Json, IOUtils, CSV

CONSTANTS Depth, Acts, Instances, Slots, Ops, Recipes
ASSUME Depth \in Nat /\ Instances \in Nat /\ Slots \in Nat

VARIABLES at, val, slot, held, plan, out, gone
\* at: the history of each instance; val: its value; slot: the history of each encoding; held: its value.
\* out: the result of the last action, if any; gone: the instances whose condition the caller overwrote.
vars == <<at, val, slot, held, plan, out, gone>>

None == <<>>
Made == {i \in 1..Instances : at[i] # None}
Live == Made \ gone
Used == {k \in 1..Slots : slot[k] # None}
NewInstance == Cardinality(Made) + 1
NewSlot == Cardinality(Used) + 1

\* The small machine: calls do not commute, and results tell conditions apart.
Start(r) == 10 * r
Step(u, o) == (2 * u + o) % 1009
Result(u, o) == 1000 * o + u
RECURSIVE Replay(_)
Replay(h) == IF Len(h) = 1 THEN Start(h[1]) ELSE Step(Replay(Front(h)), Last(h))

Do(a) == plan' = Append(plan, a) /\ Len(plan) < Depth
Act(op, i, n) == [op |-> op, i |-> i, n |-> n]

Init == /\ at = [i \in 1..Instances |-> IF i = 1 THEN Root(1) ELSE None]
        /\ val = [i \in 1..Instances |-> IF i = 1 THEN Start(1) ELSE 0]
        /\ slot = [k \in 1..Slots |-> None]
        /\ held = [k \in 1..Slots |-> 0]
        /\ plan = <<>> /\ out = 0 /\ gone = {}

New(r) == /\ NewInstance <= Instances
          /\ at' = [at EXCEPT ![NewInstance] = Root(r)]
          /\ val' = [val EXCEPT ![NewInstance] = Start(r)]
          /\ out' = 0 /\ UNCHANGED <<slot, held, gone>>
          /\ Do(Act("new", NewInstance, r))
Call(i, o) == /\ at' = [at EXCEPT ![i] = After(@, o)]
              /\ val' = [val EXCEPT ![i] = Step(@, o)]
              /\ out' = Result(val[i], o)
              /\ UNCHANGED <<slot, held, gone>>
              /\ Do(Act("call", i, o))
Encode(i) == /\ NewSlot <= Slots
             /\ slot' = [slot EXCEPT ![NewSlot] = at[i]]
             /\ held' = [held EXCEPT ![NewSlot] = val[i]]
             /\ out' = 0 /\ UNCHANGED <<at, val, gone>>
             /\ Do(Act("encode", i, NewSlot))
Decode(k) == /\ NewInstance <= Instances
             /\ at' = [at EXCEPT ![NewInstance] = slot[k]]
             /\ val' = [val EXCEPT ![NewInstance] = held[k]]
             /\ out' = 0 /\ UNCHANGED <<slot, held, gone>>
             /\ Do(Act("decode", NewInstance, k))
\* No part of any history.
Idle(op, i, n) == /\ out' = 0 /\ UNCHANGED <<at, val, slot, held, gone>>
                  /\ Do(Act(op, i, n))
\* The caller overwrites the arrays that are the condition of an instance, and gives it up.
Spoil(i) == /\ gone' = gone \cup {i}
            /\ val' = [val EXCEPT ![i] = -1]
            /\ out' = 0 /\ UNCHANGED <<at, slot, held>>
            /\ Do(Act("spoil", i, 0))

Next == \/ "new" \in Acts /\ \E r \in Recipes : New(r)
        \/ \E i \in Live : \E o \in Ops : Call(i, o)
        \/ "encode" \in Acts /\ \E i \in Live : Encode(i)
        \/ "encode" \in Acts /\ \E k \in Used : Decode(k)
        \/ "reject" \in Acts /\ \E i \in Live : \E n \in 1..2 : Idle("reject", i, n)
        \/ "badnew" \in Acts /\ Idle("badnew", 0, 1)
        \/ "scribble" \in Acts /\ \E o \in Ops : Idle("scribble", 0, o)
        \/ "scribble" \in Acts /\ Idle("scribblenew", 0, 1)
        \/ "spoil" \in Acts /\ \E i \in Live : Spoil(i)

\* Everything an instance does is determined by its history.
Determined == /\ \A i \in Live : val[i] = Replay(at[i])
              /\ \A k \in Used : held[k] = Replay(slot[k])
ResultOfHistory == (plan # <<>> /\ Last(plan).op = "call") =>
                      LET i == Last(plan).i IN out = Result(Replay(Front(at[i])), Last(plan).n)
\* An action changes the instance it names, and no other.
Isolation == [][\A i \in 1..Instances : (at'[i] # at[i] \/ val'[i] # val[i]) => (Last(plan').i = i /\ Last(plan').op \in {"new", "call", "decode", "spoil"})]_vars
\* An encoding, once made, never changes.
Immutable == [][\A k \in Used : slot'[k] = slot[k] /\ held'[k] = held[k]]_vars

Emit == Len(plan) = Depth => CSVWrite("%1$s", <<ToJson([plan |-> plan])>>, IOEnv.OUT)
=============================================================================
