-------------------------------- MODULE LogConc --------------------------------
(* The log under concurrency, step by step: threads take a reentrant lock, look up levels, add and remove handlers of  *)
(* the one registry all share, and deliver entries to a snapshot of it, handler by handler.                           *)
(*                                                                                                                   *)
(* The sequential object of Log is run beside it, one call at each acquisition of the lock: whenever the lock is free *)
(* the two agree on what every sink holds.  So every concurrent history has a sequential order of its calls, each     *)
(* between its beginning and its end.  Without the lock (Locked = FALSE) the same steps do not agree.                 *)
EXTENDS Log, Json, IOUtils, CSV

CONSTANTS Threads, MaxCalls, Locked, Calls, Setups
VARIABLES prog, setup, pc, at, owner, depth, lv, ident, registry, fresh, new, snap, got, g, gout, out
vars == <<prog, setup, pc, at, owner, depth, lv, ident, registry, fresh, new, snap, got, g, gout, out>>

Sinks == {0, 1, 3, 4}
Ident(i, j) == 10 * i + j
Cur(p) == prog[p][at[p]] @@ [id |-> Ident(p, at[p])]

Programs == UNION {[1..n -> Calls] : n \in 1..MaxCalls}
Init == /\ prog \in [Threads -> Programs]
        /\ setup \in Setups
        /\ pc = [p \in Threads |-> "begin"]
        /\ at = [p \in Threads |-> 1]
        /\ owner = 0 /\ depth = 0
        /\ lv = 20
        \* Handler 0 is the default of loguru, to standard error, until the log replaces it.
        /\ ident = IF setup = 0 THEN 0 ELSE 1
        /\ registry = IF setup = 0 THEN [x \in {0} |-> 0] ELSE [x \in {1} |-> setup]
        /\ fresh = IF setup = 0 THEN 1 ELSE 2
        /\ new = [p \in Threads |-> 0]
        /\ snap = [p \in Threads |-> {}]
        /\ got = [p \in Threads |-> ""]
        /\ g = IF setup = 0 THEN LogInit ELSE [LogInit EXCEPT !.cur = setup]
        /\ gout = [k \in Sinks |-> <<>>]
        /\ out = [k \in Sinks |-> <<>>]

Go(p, where) == pc' = [pc EXCEPT ![p] = where]
Holds(p) == ~Locked \/ owner = p
\* A call takes the lock; the sequential object makes the same call.
Begin(p) == /\ pc[p] = "begin" /\ at[p] <= Len(prog[p])
            /\ (~Locked \/ owner \in {0, p})
            /\ owner' = IF Locked THEN p ELSE 0
            /\ depth' = IF Locked THEN depth + 1 ELSE 0
            /\ LET r == Call(g, Cur(p))
               IN /\ g' = r.st
                  /\ gout' = [k \in Sinks |-> IF k \in DOMAIN r.out THEN gout[k] \o r.out[k] ELSE gout[k]]
            /\ Go(p, Cur(p).op)
            /\ UNCHANGED <<prog, setup, at, lv, ident, registry, fresh, new, snap, got, out>>
DoLevel(p) == /\ pc[p] = "level"
              /\ IF Known(LogInit, Cur(p).name) THEN lv' = No(Cur(p).name) ELSE lv' = lv
              /\ Go(p, "end")
              /\ UNCHANGED <<prog, setup, at, owner, depth, ident, registry, fresh, new, snap, got, g, gout, out>>
DoStream(p) == /\ pc[p] = "stream"
               /\ IF Cur(p).k > 0 THEN Go(p, "add") ELSE Go(p, "end")
               /\ UNCHANGED <<prog, setup, at, owner, depth, lv, ident, registry, fresh, new, snap, got, g, gout, out>>
Add1(p) == /\ pc[p] = "add"
           /\ LET k == IF Cur(p).op = "stream" THEN Cur(p).k ELSE STDOUT
              IN registry' = [x \in DOMAIN registry \cup {fresh} |-> IF x = fresh THEN k ELSE registry[x]]
           /\ new' = [new EXCEPT ![p] = fresh]
           /\ fresh' = fresh + 1
           /\ Go(p, "remove")
           /\ UNCHANGED <<prog, setup, at, owner, depth, lv, ident, snap, got, g, gout, out>>
Remove1(p) == /\ pc[p] = "remove"
              /\ registry' = [x \in DOMAIN registry \ {ident} |-> registry[x]]
              /\ Go(p, "settle")
              /\ UNCHANGED <<prog, setup, at, owner, depth, lv, ident, fresh, new, snap, got, g, gout, out>>
SettleIdent(p) == /\ pc[p] = "settle"
                  /\ ident' = new[p]
                  /\ IF Cur(p).op = "write" THEN Go(p, "compare") /\ depth' = (IF Locked THEN depth - 1 ELSE 0) ELSE Go(p, "end") /\ depth' = depth
                  /\ UNCHANGED <<prog, setup, at, owner, lv, registry, fresh, new, snap, got, g, gout, out>>
DoWrite(p) == /\ pc[p] = "write"
              /\ IF ~Known(LogInit, Cur(p).name) THEN Go(p, "end") /\ depth' = depth
                 \* The first write takes the lock again, to set the stream.
                 ELSE IF ident = 0 THEN Go(p, "add") /\ depth' = (IF Locked THEN depth + 1 ELSE 0)
                 ELSE Go(p, "compare") /\ depth' = depth
              /\ UNCHANGED <<prog, setup, at, owner, lv, ident, registry, fresh, new, snap, got, g, gout, out>>
Compare(p) == /\ pc[p] = "compare"
              /\ IF No(Cur(p).name) >= lv THEN Go(p, "deliver") /\ snap' = [snap EXCEPT ![p] = DOMAIN registry] ELSE Go(p, "end") /\ snap' = snap
              /\ UNCHANGED <<prog, setup, at, owner, depth, lv, ident, registry, fresh, new, got, g, gout, out>>
Deliver(p) == /\ pc[p] = "deliver"
              /\ IF snap[p] = {} THEN Go(p, "end") /\ UNCHANGED <<out, snap>>
                 ELSE LET x == CHOOSE z \in snap[p] : \A w \in snap[p] : z <= w
                      IN /\ snap' = [snap EXCEPT ![p] = @ \ {x}]
                         \* A handler removed meanwhile writes nothing.
                         /\ out' = IF x \in DOMAIN registry THEN [out EXCEPT ![registry[x]] = Append(@, <<No(Cur(p).name), Ident(p, at[p])>>)] ELSE out
                         /\ pc' = pc
              /\ UNCHANGED <<prog, setup, at, owner, depth, lv, ident, registry, fresh, new, got, g, gout>>
End(p) == /\ pc[p] = "end"
          /\ owner' = (IF Locked /\ depth > 1 THEN owner ELSE 0)
          /\ depth' = (IF Locked THEN depth - 1 ELSE 0)
          /\ at' = [at EXCEPT ![p] = @ + 1]
          /\ Go(p, "begin")
          /\ UNCHANGED <<prog, setup, lv, ident, registry, fresh, new, snap, got, g, gout, out>>

Next == \E p \in Threads : Begin(p) \/ DoLevel(p) \/ DoStream(p) \/ Add1(p) \/ Remove1(p) \/ SettleIdent(p) \/ DoWrite(p) \/ Compare(p) \/ Deliver(p) \/ End(p)

Finished == \A p \in Threads : pc[p] = "begin" /\ at[p] > Len(prog[p])
Free == IF Locked THEN owner = 0 ELSE Finished
Agree == Free => /\ out = gout
                 /\ lv = g.lv
                 /\ registry = (IF g.cur = 0 THEN [x \in {0} |-> 0] ELSE [x \in {ident} |-> g.cur])
LockSound == Locked => ((owner = 0) = (depth = 0))
NoDeadlock == ~Finished => ENABLED Next
\* Without the lock: how the steps fail to agree.
EmitDisagreement == (~Locked /\ ~Agree) => CSVWrite("%1$s", <<ToJson([prog |-> [p \in Threads |-> prog[p]]])>>, IOEnv.OUT)
\* The programs, for the code.
Fresh == \A p \in Threads : pc[p] = "begin" /\ at[p] = 1
EmitProgram == (Fresh /\ owner = 0) => CSVWrite("%1$s", <<ToJson([setup |-> setup, threads |-> [p \in Threads |-> prog[p]]])>>, IOEnv.OUT)
=============================================================================
