-------------------------------- MODULE Domain --------------------------------
(* The ranges of arguments.  A parameter is a range whose ends are "closed", "open" or "none" (no end on that side), or *)
(* a set of names, which is a range with an open end only: what lies at or beyond the end is no member.  A parameter   *)
(* may be given when an object is made, and may be assigned later, on its own.  A value belongs to a class by where it *)
(* lies: below the range, at its low end, inside, at its high end, above.  An object holds for each parameter the last *)
(* value that was accepted, named by the number of its event.                                                          *)
EXTENDS Integers, Sequences

P(n, lo, hi, first, later) == [n |-> n, lo |-> lo, hi |-> hi, first |-> first, later |-> later]
Set(n, lo, hi) == P(n, lo, hi, TRUE, TRUE)
Fixed(n, lo, hi) == P(n, lo, hi, TRUE, FALSE)
Name(n) == P(n, "none", "open", TRUE, FALSE)
Count(n) == Fixed(n, "closed", "none")
Table ==
    [ goertzel |-> <<Set("frequency", "closed", "closed")>>,
      bandpass |-> <<Set("frequency", "closed", "closed"), Set("rate", "closed", "closed")>>,
      frequency |-> <<Set("frequency", "closed", "closed"), Set("rate", "closed", "closed")>>,
      exponential |-> <<Set("phase", "closed", "closed")>>,
      polynomial |-> <<Set("rate", "closed", "none"), Set("order", "closed", "none")>>,
      polyphase |-> <<Set("rate", "closed", "closed")>>,
      rank |-> <<Set("index", "closed", "closed")>>,
      pid |-> <<P("limit", "closed", "none", FALSE, TRUE)>>,
      fir |-> <<Name("style"), Fixed("frequency", "open", "open"), Count("order"), Count("count")>>,
      iir |-> <<Name("style"), Fixed("frequency", "open", "open"), Count("order"), Count("count")>>,
      window |-> <<Name("style"), Count("order")>>,
      derivative |-> <<Name("derivative"), Name("order")>>,
      integral |-> <<Name("order")>>,
      wavelet |-> <<Name("style"), Name("order")>>,
      gaussian |-> <<Set("regularize", "closed", "none")>>,
      mixture |-> <<Count("order"), Set("index", "closed", "none"), Set("regularize", "closed", "none")>>,
      diversity |-> <<Name("style"), Count("order")>>,
      firresponse |-> <<Count("length"), Count("count")>>,
      firdelay |-> <<Count("length"), Count("count")>>,
      iirresponse |-> <<Count("length"), Count("count")>>,
      iirdelay |-> <<Count("length"), Count("count")>>,
      analysis |-> <<Count("count")>>,
      conversion |-> <<Fixed("frequency", "open", "none")>> ]

Classes == {"below", "low", "inside", "high", "above"}
Exists(p, c) == IF c \in {"below", "low"} THEN p.lo # "none" ELSE IF c \in {"high", "above"} THEN p.hi # "none" ELSE TRUE
Member(p, c) == IF c = "low" THEN p.lo = "closed" ELSE IF c = "high" THEN p.hi = "closed" ELSE c = "inside"
\* Making an object: a class for each parameter, "" for those that are not given.
Makes(sig) == {f \in [1..Len(sig) -> Classes \cup {""}] : \A i \in 1..Len(sig) : IF sig[i].first THEN f[i] # "" /\ Exists(sig[i], f[i]) ELSE f[i] = ""}
MadeOk(sig, f) == \A i \in 1..Len(sig) : sig[i].first => Member(sig[i], f[i])
Made(sig, f) == [i \in 1..Len(sig) |-> IF sig[i].first THEN 1 ELSE 0]
Assigned(sig, held, i, c, n) == IF Member(sig[i], c) THEN [held EXCEPT ![i] = n] ELSE held
=============================================================================
