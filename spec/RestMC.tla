--------------------------------- MODULE RestMC ---------------------------------
(* Every pair of paths with slashes anywhere; every combination of the parts of a request; every history of bounded   *)
(* length of two clients and two servers.                                                                            *)
EXTENDS Rest, Json, IOUtils, CSV

CONSTANTS Mode, Depth, MaxBase, MaxApi
VARIABLES b, a, h, s, last
vars == <<b, a, h, s, last>>

Tokens == {Slash, "x", "y"}
Words(n) == UNION {[1..k -> Tokens] : k \in 0..n}
\* Two names in a row would be one.
Tidy(p) == \A i \in 1..(Len(p) - 1) : p[i] = Slash \/ p[i + 1] = Slash
\* A path that begins with two slashes would be a host.
Bases == {p \in Words(MaxBase) : Tidy(p) /\ (p = <<>> \/ Head(p) = Slash) /\ (Len(StripRight(p)) >= 2 => p[2] # Slash)}
Apis == {p \in Words(MaxApi) : Tidy(p)}
R(method, api, item, header, auth, data, json) ==
    [method |-> method, api |-> api, item |-> item, header |-> header, auth |-> auth, data |-> data, json |-> json]
\* data, json: 0 absent, 1 and above a value.
Requests == {R(m, <<"x">>, i, d, c, p, q) : m \in Methods \cup {"BAD"}, i \in 0..2, d \in 0..2, c \in 0..1, p \in 0..2, q \in 0..2}
Small == {R("GET", <<"x">>, 1, 1, 1, 0, 0), R("POST", <<Slash, "y", Slash>>, 0, 0, 0, 1, 0), R("PUT", <<>>, 2, 2, 0, 0, 1), R("BAD", <<"x">>, 1, 0, 0, 0, 0),
          R("PATCH", <<"x">>, 0, 0, 0, 1, 1)}
Clients == {1, 2}
Step == [op : {"request"}, c : Clients, r : Small] \cup [op : {"url"}, c : Clients, server : {1, 2}, base : {<<>>, <<Slash, "y", Slash>>}]
        \cup [op : {"live"}, c : Clients] \cup [op : {"proxy"}, c : Clients, proxy : {0, 3}]

Init == /\ h = <<>> /\ last = [op |-> "nil"]
        /\ s = [c \in Clients |-> SetUrl(ClientInit, 1, <<>>)]
        /\ IF Mode = "join" THEN b \in Bases /\ a \in Apis ELSE b = <<>> /\ a = <<>>
Next == /\ Mode = "history" /\ Len(h) < Depth
        /\ \E x \in Step :
             /\ h' = Append(h, x)
             /\ last' = x
             /\ s' = CASE x.op = "url" -> [s EXCEPT ![x.c] = SetUrl(@, x.server, x.base)]
                       [] x.op = "proxy" -> [s EXCEPT ![x.c] = SetProxy(@, x.proxy)]
                       [] OTHER -> s
        /\ UNCHANGED <<b, a>>

\* The join: the base without slashes at its end, one slash, the path without slashes at its ends.
JoinKeepsBoth == LET p == Join(b, a)
                 IN /\ IsPrefix(StripRight(b), p)
                    /\ IsSuffix(Strip(a), p)
                    /\ p # <<>> /\ Head(p) = Slash
                    /\ Strip(a) # <<>> => Last(p) # Slash /\ Len(p) = Len(StripRight(b)) + 1 + Len(Strip(a)) /\ p[Len(StripRight(b)) + 1] = Slash
                    /\ Strip(a) = <<>> => p = (IF StripRight(b) = <<>> THEN <<Slash>> ELSE StripRight(b))
SlashesAtEndsAreIrrelevant == \A n \in 1..2 : LET z == [i \in 1..n |-> Slash]
                              IN Join(b \o z, a) = Join(b, a) /\ Join(b, z \o a) = Join(b, a) /\ Join(b, a \o z) = Join(b, a)
\* Nothing of a request remains: only url and proxy change a client, and only their own.
RequestsLeaveNothing == [][(last' # last /\ last'.op \in {"request", "live"}) => s' = s]_vars
OthersUntouched == [][\A c \in Clients : (last' # last /\ last'.c # c) => s'[c] = s[c]]_vars

Emit == CASE Mode = "join" -> CSVWrite("%1$s", <<ToJson([b |-> b, a |-> a, p |-> Join(b, a)])>>, IOEnv.OUT)
          [] Mode = "history" -> (Len(h) = Depth => CSVWrite("%1$s", <<ToJson([h |-> h])>>, IOEnv.OUT))
          [] Mode = "requests" -> \A r \in Requests : CSVWrite("%1$s", <<ToJson([r |-> r])>>, IOEnv.OUT)
=============================================================================
