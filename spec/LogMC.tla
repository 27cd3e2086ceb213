--------------------------------- MODULE LogMC ---------------------------------
(* Every history of calls of bounded length.  What the streams hold is compared with what the history alone says:     *)
(* the level and the stream in force are those set most recently by a call that was accepted.                         *)
EXTENDS Log, Json, IOUtils, CSV

CONSTANTS Depth, Names, Sinks, Handlers
VARIABLES h, s, out
vars == <<h, s, out>>

All == Sinks \cup Handlers \cup {STDOUT}
A(op, name, k, no) == [op |-> op, name |-> name, k |-> k, no |-> no, id |-> Len(h) + 1]
Actions ==
    {A("level", n, 0, 0) : n \in Names} \cup {A("write", n, 0, 0) : n \in Names}
    \cup {A("stream", "", k, 0) : k \in Sinks \cup {0}}
    \cup {A("define", n, 0, 0) : n \in (Names \cap DOMAIN Extra) \ s.extra}
    \cup {A("native", n, 0, 0) : n \in {x \in Names : Known(s, x) /\ DOMAIN s.nat # {}}}
    \cup {A("add", "", k, 25) : k \in Handlers \ DOMAIN s.nat}
    \cup {A("remove", "", k, 0) : k \in DOMAIN s.nat}

Init == h = <<>> /\ s = LogInit /\ out = [k \in All |-> <<>>]
Next == /\ Len(h) < Depth
        /\ \E a \in Actions :
             LET r == Call(s, a)
             IN /\ h' = Append(h, a @@ [ok |-> r.ok])
                /\ s' = r.st
                /\ out' = [k \in All |-> IF k \in DOMAIN r.out THEN out[k] \o r.out[k] ELSE out[k]]

\* The history alone.
Last(P(_), dflt, i) == LET S == {j \in 1..(i - 1) : P(h[j])}
                       IN IF S = {} THEN dflt ELSE h[CHOOSE j \in S : \A m \in S : m <= j]
Nil == [op |-> "nil"]
LevelAt(i) == LET r == Last(LAMBDA e : e.op = "level" /\ e.ok, Nil, i) IN IF r = Nil THEN 20 ELSE No(r.name)
StreamAt(i) == LET r == Last(LAMBDA e : e.op = "stream" /\ e.ok, Nil, i) IN IF r = Nil THEN STDOUT ELSE r.k
Count(k, i) == Cardinality({j \in 1..Len(out[k]) : out[k][j][2] = i})
Passes(i) == h[i].op = "write" /\ h[i].ok /\ No(h[i].name) >= LevelAt(i)

OnceToTheCurrentStream ==
    \A i \in 1..Len(h) : \A k \in Sinks \cup {STDOUT} : Count(k, i) = IF Passes(i) /\ StreamAt(i) = k THEN 1 ELSE 0
InOrder == \A k \in All : \A i, j \in 1..Len(out[k]) : i < j => out[k][i][2] < out[k][j][2]
\* A handler of the application hears exactly what its level admits, whatever happens to level and stream.
HandlersUndisturbed ==
    \A k \in Handlers : \A i \in 1..Len(h) :
        (h[i].op \in {"native", "write"}) =>
            LET a == Last(LAMBDA e : e.op = "add" /\ e.k = k, Nil, i)
                d == Last(LAMBDA e : e.op = "remove" /\ e.k = k, Nil, i)
                present == a # Nil /\ (d = Nil \/ d.id < a.id)
            IN Count(k, i) = IF present /\ (h[i].op = "native" \/ Passes(i)) /\ No(h[i].name) >= a.no THEN 1 ELSE 0
RejectedChangesNothing == [][(h' # h /\ ~h'[Len(h')].ok) => s' = s /\ out' = out]_vars

Emit == (Len(h) = Depth) => CSVWrite("%1$s", <<ToJson([h |-> h])>>, IOEnv.OUT)
\* Every transition of the condition.
EmitInit == (h = <<>>) => CSVWrite("%1$s", <<ToJson([init |-> s])>>, IOEnv.OUT)
View == s
EmitStep == CSVWrite("%1$s", <<ToJson([f |-> s, a |-> h'[Len(h')], t |-> s'])>>, IOEnv.OUT)
=============================================================================
