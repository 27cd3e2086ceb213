---------------------------------- MODULE Rest ----------------------------------
(* A client of a service: what a request carries, and where it goes.                                                 *)
(*                                                                                                                   *)
(* A path is a sequence of tokens: "/" or the name of a segment.  A value (parameters, headers, credentials, a body)  *)
(* is an identity; 0 is absence.  Servers are numbers.                                                               *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Slash == "/"
RECURSIVE StripLeft(_), StripRight(_)
StripLeft(p) == IF p # <<>> /\ Head(p) = Slash THEN StripLeft(Tail(p)) ELSE p
StripRight(p) == IF p # <<>> /\ Last(p) = Slash THEN StripRight(Front(p)) ELSE p
Strip(p) == StripRight(StripLeft(p))
Join(base, api) == LET b == StripRight(base)
                       a == Strip(api)
                       p == IF a = <<>> THEN b ELSE b \o <<Slash>> \o a
                   IN IF p = <<>> THEN <<Slash>> ELSE p

Methods == {"DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT"}

\* The condition of a client: server 0 is no URL; a proxy is a server too, 0 is none.
ClientInit == [server |-> 0, base |-> <<>>, proxy |-> 0]
SetUrl(s, server, base) == [s EXCEPT !.server = server, !.base = base]
SetProxy(s, proxy) == [s EXCEPT !.proxy = proxy]
Valid(s, r) == s.server # 0 /\ r.method \in Methods /\ ~(r.data # 0 /\ r.json # 0)
\* What arrives, once, and where.
Arrives(s, r) == [at |-> IF s.proxy # 0 THEN s.proxy ELSE s.server, server |-> s.server, method |-> r.method, path |-> Join(s.base, r.api),
                  item |-> r.item, header |-> r.header, auth |-> r.auth, data |-> r.data, json |-> r.json]
Probe(s) == [at |-> IF s.proxy # 0 THEN s.proxy ELSE s.server, server |-> s.server, method |-> "HEAD", path |-> Join(s.base, <<>>),
             item |-> 0, header |-> 0, auth |-> 0, data |-> 0, json |-> 0]
=============================================================================
