--------------------------------- MODULE LogLin ---------------------------------
(* Decides recorded concurrent histories.  A history holds calls, each with the calls that ended before it began, and *)
(* what every sink held at the end.  It is accepted if some sequential order of its calls, which respects precedence, *)
(* has the outcome of every call and leaves exactly those contents.                                                   *)
EXTENDS Log, Json, IOUtils, CSV

Hist == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, done, s, pos
vars == <<t, done, s, pos>>

Held(i, k) == LET S == {j \in 1..Len(Hist[i].sinks) : Hist[i].sinks[j].k = k} IN IF S = {} THEN <<>> ELSE Hist[i].sinks[CHOOSE j \in S : TRUE].held
AllSinks(i) == {Hist[i].sinks[j].k : j \in 1..Len(Hist[i].sinks)}
LInit == /\ t \in 1..Len(Hist)
         /\ done = {}
         /\ s = LogInit
         /\ pos = [k \in AllSinks(t) |-> 0]
LNext == \E i \in (1..Len(Hist[t].ops)) \ done :
            LET o == Hist[t].ops[i]
                r == Call(s, o)
            IN /\ \A j \in 1..Len(o.pred) : o.pred[j] \in done
               /\ r.ok = (o.e = "")
               /\ DOMAIN r.out \subseteq AllSinks(t)
               /\ \A k \in DOMAIN r.out : \A m \in 1..Len(r.out[k]) :
                     /\ pos[k] + m <= Len(Held(t, k))
                     /\ Held(t, k)[pos[k] + m] = r.out[k][m]
               /\ s' = r.st
               /\ pos' = [k \in AllSinks(t) |-> IF k \in DOMAIN r.out THEN pos[k] + Len(r.out[k]) ELSE pos[k]]
               /\ done' = done \cup {i}
               /\ t' = t
Linearized == done = 1..Len(Hist[t].ops) /\ \A k \in AllSinks(t) : pos[k] = Len(Held(t, k))
ReportLin == Linearized => CSVWrite("%1$s", <<t>>, IOEnv.OUT)
=============================================================================
