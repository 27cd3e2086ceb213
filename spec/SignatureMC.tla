------------------------------ MODULE SignatureMC ------------------------------
(* Every form of every call: how many arguments are passed by position, and which of the others by name.  "g" stands    *)
(* for a given text, other than the default.                                                                           *)
EXTENDS Signature, SequencesExt, TLC, Json, IOUtils, CSV

VARIABLES c, p, k, ill
Sig == Table[c]
Init == /\ c \in DOMAIN Table
        /\ p \in 0..Len(Table[c])
        /\ k \in SUBSET (p + 1..Len(Table[c]))
        /\ ill \in {"no", "unknown", "surplus", "twice"}
Next == UNCHANGED <<c, p, k, ill>>
Order(s) == SetToSortSeq(s, <)
G == [pos |-> [i \in 1..p |-> "g"], kw |-> [i \in 1..Cardinality(k) |-> <<Sig[Order(k)[i]].n, "g">>]]
F == CASE ill = "no" -> G
       [] ill = "unknown" -> [G EXCEPT !.kw = Append(@, <<"unknown", "g">>)]
       [] ill = "surplus" -> [G EXCEPT !.pos = [i \in 1..Len(Sig) + 1 |-> "g"], !.kw = <<>>]
       [] OTHER -> IF p > 0 THEN [G EXCEPT !.kw = Append(@, <<Sig[1].n, "g">>)] ELSE G
Ok == Well(Sig, F)
\* A form that passes everything by name, in any order, means the same.
Full(m) == [pos |-> <<>>, kw |-> [i \in 1..Len(Sig) |-> <<Sig[i].n, m[i]>>]]
Equivalent == Ok => LET m == Meaning(Sig, F) IN Well(Sig, Full(m)) /\ Meaning(Sig, Full(m)) = m /\ Meaning(Sig, [Full(m) EXCEPT !.kw = Reverse(@)]) = m
Bound == Ok => \A i \in 1..Len(Sig) : Meaning(Sig, F)[i] # ""
IllForms == (ill \in {"unknown", "surplus"} \/ (ill = "twice" /\ p > 0)) => ~ Ok
Distinct == \A s \in DOMAIN Table : Cardinality(Names(Table[s])) = Len(Table[s])
Emit == CSVWrite("%1$s", <<ToJson([c |-> c, f |-> F, ok |-> Ok, m |-> IF Ok THEN Meaning(Sig, F) ELSE <<>>, names |-> [i \in 1..Len(Sig) |-> Sig[i].n]])>>, IOEnv.OUT)
=============================================================================
