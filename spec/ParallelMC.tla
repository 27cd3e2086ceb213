------------------------------ MODULE ParallelMC ------------------------------
(* Every schedule of bounded preemption of threads that use instances of their own.                                   *)
EXTENDS Parallel, Json, IOUtils, CSV

CONSTANTS Threads, Ops, Steps, Preemptions
VARIABLES done, pc, val, work, sval, scratch, results, shared, plan, last, cuts
\* done: operations each thread has completed; pc: steps of the present one; val, work: the condition and the copy.
\* sval, scratch: those of the machine whose operations share what they work on.  results, shared: what operations yielded.
\* plan: <<thread, operation, step>> reached by each uninterrupted run; cuts: preemptions so far.
vars == <<done, pc, val, work, sval, scratch, results, shared, plan, last, cuts>>
T == 1..Threads
Init == /\ done = [t \in T |-> 0] /\ pc = [t \in T |-> 0]
        /\ val = [t \in T |-> Start(t)] /\ work = [t \in T |-> 0]
        /\ sval = [t \in T |-> Start(t)] /\ scratch = 0
        /\ results = [t \in T |-> <<>>] /\ shared = [t \in T |-> <<>>]
        /\ plan = <<>> /\ last = 0 /\ cuts = 0
Over(t) == done[t] = Ops
\* Leaving a thread between operations is no preemption, nor is leaving one that is over.
Cost(t) == IF last \in {0, t} \/ pc[last] = 0 THEN 0 ELSE 1
Run(t) == LET at == <<t, done[t] + 1, pc[t] + 1>>
          IN IF last = t THEN plan' = Append(Front(plan), at) ELSE plan' = Append(plan, at)
Step(t) ==
    /\ ~ Over(t) /\ cuts + Cost(t) <= Preemptions
    /\ LET o == done[t] + 1 k == pc[t] + 1
           u == Work(t, o, k, IF k = 1 THEN val[t] ELSE work[t])
           w == Work(t, o, k, IF k = 1 THEN sval[t] ELSE scratch)
       IN IF k < Steps
          THEN /\ pc' = [pc EXCEPT ![t] = k] /\ work' = [work EXCEPT ![t] = u] /\ scratch' = w
               /\ UNCHANGED <<done, val, sval, results, shared>>
          ELSE /\ pc' = [pc EXCEPT ![t] = 0] /\ work' = [work EXCEPT ![t] = u] /\ scratch' = w
               /\ done' = [done EXCEPT ![t] = o]
               /\ val' = [val EXCEPT ![t] = u] /\ sval' = [sval EXCEPT ![t] = w]
               /\ results' = [results EXCEPT ![t] = Append(@, u)] /\ shared' = [shared EXCEPT ![t] = Append(@, w)]
    /\ Run(t) /\ last' = t /\ cuts' = cuts + Cost(t)
Next == \E t \in T : Step(t)
Spec == Init /\ [][Next]_vars
\* What an operation yields, and what it leaves, is that of its own thread alone, under every schedule.
Independent == \A t \in T : \A o \in 1..done[t] : results[t][o] = Alone(t, o, Steps)
Conditions == \A t \in T : val[t] = Alone(t, done[t], Steps)
\* A step of one thread leaves the others as they are.
Separate == [][\A t \in T : (val'[t] # val[t] \/ pc'[t] # pc[t] \/ work'[t] # work[t]) => last' = t]_vars
\* Without preemption nothing that is shared within operations can be told.
Telling == shared # results
Undisturbed == cuts = 0 => ~ Telling
Emit == (\A t \in T : Over(t)) => CSVWrite("%1$s", <<ToJson([plan |-> plan, cuts |-> cuts, telling |-> Telling])>>, IOEnv.OUT)
=============================================================================
