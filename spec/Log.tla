---------------------------------- MODULE Log ----------------------------------
(* The log as a sequential object: a level, a current stream, and the handlers an application added itself.           *)
(*                                                                                                                   *)
(* Sinks are numbers: 1 is standard output, others are streams and handlers.  An entry is a pair of a level number and *)
(* an identity.  Every call has an outcome: the condition after it, and what each sink receives during it.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

STDOUT == 1

\* Levels of loguru and levels an application may add.
Base == [TRACE |-> 5, DEBUG |-> 10, INFO |-> 20, SUCCESS |-> 25, WARNING |-> 30, ERROR |-> 40, CRITICAL |-> 50]
Extra == [NOTICE |-> 22, ZERO |-> 0, PANIC |-> 99]

LogInit == [lv |-> 20, cur |-> 0, nat |-> [x \in {} |-> 0], extra |-> {}]

Known(s, name) == name \in DOMAIN Base \/ name \in s.extra
No(name) == IF name \in DOMAIN Base THEN Base[name] ELSE Extra[name]

\* A sink receives a sequence of entries.
None == [x \in {} |-> <<>>]
Accept(s) == [ok |-> TRUE, st |-> s, out |-> None]
Reject(s) == [ok |-> FALSE, st |-> s, out |-> None]

Level(s, name) == IF Known(s, name) THEN Accept([s EXCEPT !.lv = No(name)]) ELSE Reject(s)
Stream(s, sink) == IF sink > 0 THEN Accept([s EXCEPT !.cur = sink]) ELSE Reject(s)
\* The first write settles the stream on standard output.
Settle(s) == IF s.cur = 0 THEN [s EXCEPT !.cur = STDOUT] ELSE s
Hearing(s, no) == {k \in DOMAIN s.nat : s.nat[k] <= no}
Write(s, name, id) ==
    IF ~Known(s, name) THEN Reject(s)
    ELSE LET u == Settle(s)
         IN IF No(name) < u.lv THEN Accept(u)
            ELSE [ok |-> TRUE, st |-> u, out |-> [k \in {u.cur} \cup Hearing(u, No(name)) |-> << <<No(name), id>> >>]]
\* The application: a level, a handler, an entry of its own.
Define(s, name) == Accept([s EXCEPT !.extra = @ \cup {name}])
Add(s, k, no) == Accept([s EXCEPT !.nat = [x \in DOMAIN s.nat \cup {k} |-> IF x = k THEN no ELSE s.nat[x]]])
Remove(s, k) == Accept([s EXCEPT !.nat = [x \in DOMAIN s.nat \ {k} |-> s.nat[x]]])
Native(s, name, id) == [ok |-> TRUE, st |-> s, out |-> [k \in Hearing(s, No(name)) |-> << <<No(name), id>> >>]]

Call(s, a) == CASE a.op = "level" -> Level(s, a.name)
                [] a.op = "stream" -> Stream(s, a.k)
                [] a.op = "write" -> Write(s, a.name, a.id)
                [] a.op = "define" -> Define(s, a.name)
                [] a.op = "add" -> Add(s, a.k, a.no)
                [] a.op = "remove" -> Remove(s, a.k)
                [] a.op = "native" -> Native(s, a.name, a.id)
=============================================================================
