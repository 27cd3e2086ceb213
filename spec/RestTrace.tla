-------------------------------- MODULE RestTrace --------------------------------
(* Decides recorded calls of several clients.  got lists what arrived anywhere during a call, with identities of what  *)
(* it carried; rest is 1 if it carried anything else (cookies, credentials, headers of another request).              *)
EXTENDS Rest, TraceCheck
XInit(cfg) == [c \in 1..cfg.clients |-> ClientInit]
Plain(g) == [at |-> g.at, server |-> g.server, method |-> g.method, path |-> g.path, item |-> g.item, header |-> g.header, auth |-> g.auth, data |-> g.data, json |-> g.json]
Difference(g, w) == CASE g.at # w.at \/ g.server # w.server -> "a request reached another server"
                      [] g.method # w.method -> "a request has another method"
                      [] g.path # w.path -> "a request has another path"
                      [] g.item # w.item -> "a request has other parameters"
                      [] g.header # w.header -> "a request has other headers"
                      [] g.auth # w.auth -> "a request has other credentials"
                      [] OTHER -> "a request has another body"
Judge(got, want) == IF Len(got) = 0 THEN "a request did not arrive"
                    ELSE IF Len(got) > 1 THEN "a request arrived more than once"
                    ELSE IF Plain(got[1]) # want THEN Difference(got[1], want)
                    ELSE IF got[1].rest # 0 THEN "a request carries something that was not given"
                    ELSE "ok"
XStep(cfg, s, e) ==
    LET c == s[e.c]
        \* The URL may be changed while a request is on its way: that concerns later requests only.
        moved == IF e.mid # 0 /\ e.got # <<>> THEN [s EXCEPT ![e.c] = SetUrl(@, e.mid, <<>>)] ELSE s
    IN CASE e.op = "url" -> [st |-> [s EXCEPT ![e.c] = SetUrl(@, e.server, e.base)], v |-> IF e.e = "" THEN "ok" ELSE "a URL was rejected"]
         [] e.op = "proxy" -> [st |-> [s EXCEPT ![e.c] = SetProxy(@, e.proxy)], v |-> IF e.e = "" THEN "ok" ELSE "a proxy was rejected"]
         [] e.op = "live" -> [st |-> moved, v |-> IF c.server = 0 THEN IF e.e # "" \/ e.y # 0 THEN "live without a URL" ELSE "ok"
                                               ELSE IF e.e # "" THEN "live raised an error" ELSE IF e.y # 1 THEN "a live service is reported dead"
                                               ELSE Judge(e.got, Probe(c))]
         [] OTHER -> [st |-> moved,
                      v |-> IF e.changed # 0 THEN "an argument was modified"
                            ELSE IF ~Valid(c, e.r) THEN IF e.got # <<>> THEN "a rejected request caused traffic" ELSE IF e.e = "" THEN "an invalid request was accepted" ELSE "ok"
                            ELSE IF e.got # <<>> /\ Judge(e.got, Arrives(c, e.r)) # "ok" THEN Judge(e.got, Arrives(c, e.r))
                            \* The service drops the connection once it has read the request.
                            ELSE IF e.drop # 0 THEN IF e.e = "" THEN "a dropped request was not raised" ELSE Judge(e.got, Arrives(c, e.r))
                            ELSE IF e.e # "" THEN "a valid request raised an error"
                            ELSE IF e.y # 1 THEN "the response is not that of the request"
                            ELSE Judge(e.got, Arrives(c, e.r))]
=============================================================================
