---------------------------- MODULE ComponentTrace ----------------------------
(* Decides whether what instances returned is determined by their histories alone.  Events:                          *)
(*   new(i, n)      instance i was made by recipe n          call(i, n, y)  instance i accepted call n and returned y *)
(*   encode(i, n)   instance i was encoded as n              decode(i, n)   instance i was decoded from encoding n    *)
(*   reject(i, n)   instance i was given an invalid call     badnew(n)      invalid construction                      *)
(*   scribble       the caller overwrote arrays it owns                                                              *)
(*   spoil(i)       the caller overwrote the attributes of instance i, which is not called any more                  *)
(* Every event carries e, the error it raised ("" if none), and kept, whether the arguments were left as they were.  *)
(* Results are named by numbers; equal results have equal names.                                                     *)
EXTENDS Component, TraceCheck

E0 == [x \in {} |-> 0]
XInit(cfg) == [at |-> E0, slot |-> E0, known |-> E0]

Ok(s) == [st |-> s, v |-> "ok"]
No(s, why) == [st |-> s, v |-> why]
Valid(s, e, next) == IF e.e # "" THEN No(s, "a valid call raised an error") ELSE IF ~e.kept THEN No(s, "an argument was modified") ELSE next
Invalid(s, e, why) == IF e.e = "" THEN No(s, why) ELSE IF ~e.kept THEN No(s, "an argument was modified") ELSE Ok(s)

XStep(cfg, s, e) ==
    CASE e.op = "new" -> Valid(s, e, Ok([s EXCEPT !.at = Put(@, e.i, Root(e.n))]))
      [] e.op = "call" ->
            LET h == After(s.at[e.i], e.n)
            IN Valid(s, e, IF h \in DOMAIN s.known
                           THEN IF s.known[h] = e.y THEN Ok([s EXCEPT !.at[e.i] = h])
                                ELSE No(s, "the result is not determined by the history of the instance")
                           ELSE Ok([s EXCEPT !.at[e.i] = h, !.known = Put(@, h, e.y)]))
      [] e.op = "encode" -> Valid(s, e, Ok([s EXCEPT !.slot = Put(@, e.n, s.at[e.i])]))
      [] e.op = "decode" -> Valid(s, e, Ok([s EXCEPT !.at = Put(@, e.i, s.slot[e.n])]))
      [] e.op = "reject" -> Invalid(s, e, "an invalid call was accepted")
      [] e.op = "badnew" -> Invalid(s, e, "an invalid construction was accepted")
      [] e.op = "spoil" -> Ok([s EXCEPT !.at = [i \in DOMAIN s.at \ {e.i} |-> s.at[i]]])
      [] OTHER -> Ok(s)
=============================================================================
