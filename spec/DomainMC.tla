------------------------------- MODULE DomainMC -------------------------------
(* Every history of an object: made with a value of every combination of classes, then assigned values.               *)
EXTENDS Domain, TLC, Json, IOUtils, CSV

CONSTANT Depth
VARIABLES kind, held, h
vars == <<kind, held, h>>
Sig == Table[kind]
Names(s) == [i \in 1..Len(s) |-> s[i].n]
Init == /\ kind \in DOMAIN Table
        /\ \E f \in Makes(Table[kind]) :
              /\ held = Made(Table[kind], f)
              /\ h = <<[op |-> "make", i |-> 0, c |-> f, ok |-> MadeOk(Table[kind], f), held |-> Made(Table[kind], f)]>>
Alive == h[1].ok
Assign(i, c) == /\ Sig[i].later /\ Exists(Sig[i], c)
                /\ held' = Assigned(Sig, held, i, c, Len(h) + 1)
                /\ h' = Append(h, [op |-> "assign", i |-> i, c |-> <<c>>, ok |-> Member(Sig[i], c), held |-> Assigned(Sig, held, i, c, Len(h) + 1)])
                /\ UNCHANGED kind
Next == Alive /\ Len(h) <= Depth /\ \E i \in 1..Len(Sig), c \in Classes : Assign(i, c)
Spec == Init /\ [][Next]_vars
\* What is held was accepted, and nothing accepted for it came later.
ClassOf(i, n) == IF n = 1 THEN h[1].c[i] ELSE h[n].c[1]
Held == Alive => \A i \in 1..Len(Sig) :
           /\ held[i] # 0 => (h[held[i]].ok /\ Member(Sig[i], ClassOf(i, held[i])) /\ (held[i] > 1 => h[held[i]].i = i))
           /\ \A n \in 2..Len(h) : (h[n].i = i /\ h[n].ok) => n <= held[i]
\* A rejected assignment changes nothing; an accepted one changes its own parameter only.
Changes == [][\A i \in 1..Len(Sig) : held'[i] # held[i] => (h'[Len(h')].ok /\ h'[Len(h')].i = i)]_vars
Full == ~ Alive \/ Len(h) = Depth + 1 \/ \A i \in 1..Len(Sig) : ~ Sig[i].later
Emit == Full => CSVWrite("%1$s", <<ToJson([kind |-> kind, names |-> Names(Sig), h |-> h])>>, IOEnv.OUT)
=============================================================================
