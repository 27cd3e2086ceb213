--------------------------------- MODULE Graph ---------------------------------
(* Object graphs, and what serialization makes of them.                                                              *)
(*                                                                                                                   *)
(* A graph is a sequence of nodes, the first being the root.  A node has a tag t, an atom number a, and a sequence k *)
(* of children.  A node with a positive atom number is an immutable value: nothing can tell two of them apart.  Any  *)
(* other node has an identity: it may be shared, and it may be part of a cycle.                                      *)
(* The meaning of a graph is its sequence of tokens in depth first order, where a node met again is a reference.     *)
EXTENDS Integers, Sequences, SequencesExt, TLC

Token(kind, tag, n) == <<kind, tag, n>>
Grow(f, k, u) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN u ELSE f[x]]
RECURSIVE Visit(_, _, _)
Visit(g, n, acc) ==
    IF g[n].a > 0 THEN [acc EXCEPT !.out = Append(@, Token("atom", g[n].t, g[n].a))]
    ELSE IF n \in DOMAIN acc.num THEN [acc EXCEPT !.out = Append(@, Token("get", "", acc.num[n]))]
    ELSE LET opened == [num |-> Grow(acc.num, n, acc.next), next |-> acc.next + 1,
                        out |-> Append(acc.out, Token("open", g[n].t, Len(g[n].k)))]
         IN FoldLeft(LAMBDA b, c : Visit(g, c, b), opened, g[n].k)
E0 == [x \in {} |-> 0]
Tokens(g) == Visit(g, 1, [num |-> E0, next |-> 1, out |-> <<>>]).out

\* A machine that rebuilds a graph from its tokens.  Nodes are numbered as they are met; pending holds the nodes that
\* still await children, innermost last, and how many.
Meet(acc, node) == LET n == Len(acc.g) + 1
                   IN [acc EXCEPT !.g = Append(@, node), !.last = n]
\* Gives the node just met to the innermost pending node, and closes those that are complete.
RECURSIVE Settle(_)
Settle(acc) == IF acc.pending = <<>> \/ Last(acc.pending).left > 0 THEN acc ELSE Settle([acc EXCEPT !.pending = Front(@)])
Give(acc, n) == IF acc.pending = <<>> THEN acc
                ELSE LET p == Len(acc.pending) m == acc.pending[p].node
                     IN [acc EXCEPT !.g[m].k = Append(@, n), !.pending[p].left = @ - 1]
Read(acc, tok) ==
    IF tok[1] = "get" THEN Settle(Give(acc, acc.memo[tok[3]]))
    ELSE IF tok[1] = "atom" THEN LET b == Meet(acc, [t |-> tok[2], a |-> tok[3], k |-> <<>>]) IN Settle(Give(b, b.last))
    ELSE LET b == Meet(acc, [t |-> tok[2], a |-> 0, k |-> <<>>])
             c == Give([b EXCEPT !.memo = Append(@, b.last)], b.last)
         IN Settle([c EXCEPT !.pending = Append(@, [node |-> c.last, left |-> tok[3]])])
Rebuild(tokens) == FoldLeft(Read, [g |-> <<>>, memo |-> <<>>, pending |-> <<>>, last |-> 0], tokens).g
=============================================================================
