-------------------------------- MODULE GraphMC --------------------------------
(* Every object graph of bounded size, up to the names of its nodes.                                                 *)
EXTENDS Graph, Json, IOUtils, CSV

CONSTANTS Nodes, Tags, Width
ASSUME Nodes \in Nat /\ Width \in Nat

VARIABLES g, todo
\* Nodes are added in depth first order of meeting: todo is the number of nodes promised to exist but not yet chosen.
vars == <<g, todo>>

Children(limit) == UNION {[1..w -> 1..limit] : w \in 0..Width}
Init == g = <<>> /\ todo = 1
\* Adds the next node: an atom, or a container whose children are nodes known so far or new ones.
Highest(k, base) == IF k = <<>> THEN base ELSE LET m == CHOOSE x \in {k[i] : i \in 1..Len(k)} : \A i \in 1..Len(k) : k[i] <= x
                                               IN IF m > base THEN m ELSE base
AddAtom == g' = Append(g, [t |-> "atom", a |-> 1, k |-> <<>>]) /\ todo' = todo - 1
AddContainer(tag, k) == LET known == Len(g) + todo
                            high == Highest(k, known)
                        IN /\ high <= Nodes
                           /\ g' = Append(g, [t |-> tag, a |-> 0, k |-> k])
                           /\ todo' = todo - 1 + (high - known)
Next == /\ todo > 0
        /\ IF Len(g) > 0 /\ ENABLED AddAtom THEN (AddAtom \/ \E tag \in Tags : \E k \in Children(Nodes) : AddContainer(tag, k))
           ELSE \E tag \in Tags : \E k \in Children(Nodes) : AddContainer(tag, k)

Complete == todo = 0
\* What a reader rebuilds from the tokens of a graph has the same tokens: nothing is lost, and sharing is preserved.
RoundTrip == Complete => Tokens(Rebuild(Tokens(g))) = Tokens(g)
\* Every identity is opened exactly once.
Identity == Complete => LET s == Tokens(g) IN Len(SelectSeq(s, LAMBDA u : u[1] = "open")) <= Len(g)

\* A tuple cannot contain itself without a mutable container in between.
RECURSIVE Reach(_, _)
Reach(ns, n) == IF n = 0 THEN ns ELSE Reach(ns \cup UNION {{c \in {g[m].k[i] : i \in 1..Len(g[m].k)} : g[c].t = "tuple"} : m \in ns}, n - 1)
Buildable == \A n \in 1..Len(g) : g[n].t = "tuple" =>
                n \notin Reach({c \in {g[n].k[i] : i \in 1..Len(g[n].k)} : g[c].t = "tuple"}, Len(g))
Emit == (Complete /\ Buildable) => CSVWrite("%1$s", <<ToJson([g |-> g, tokens |-> Tokens(g)])>>, IOEnv.OUT)
=============================================================================
