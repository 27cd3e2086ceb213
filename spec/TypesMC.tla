-------------------------------- MODULE TypesMC --------------------------------
(* Every short sequence of numbers at and about the ends of the types, with the types that hold it.                    *)
EXTENDS Types, TLC, Json, IOUtils, CSV

CONSTANTS Exps, Depth
VARIABLE s
MCExps == {0, 1, 6, 7, 8, 14, 15, 16, 30, 31, 32, 40}
Init == s = <<>>
Next == /\ Len(s) < Depth
        /\ \E v \in Numbers(Exps) : (Types(Append(s, v)) # {} /\ s' = Append(s, v))
Spec == Init /\ [][Next]_s
\* A type holds what a narrower one of its kind holds, and a signed type what a narrower unsigned type holds.
Nested == \A t, u \in Table : ((t.s = u.s /\ t.b <= u.b) \/ (~ t.s /\ u.s /\ t.b < u.b)) => (HoldsAll(t, s) => HoldsAll(u, s))
\* Only numbers without a sign are held by types without signs, and the widest signed type holds everything written here.
Signs == \A t \in Types(s) : ~ t.s => \A i \in 1..Len(s) : (s[i] = Zero \/ s[i].sg = 1)
Widest == \E t \in Types(s) : t.n = "int64"
\* Order is total, and reversed by negation.
Ordered == \A i, j \in 1..Len(s) : (s[i] # s[j] => (Less(s[i], s[j]) # Less(s[j], s[i]))) /\ (Less(s[i], s[j]) <=> Less(Neg(s[j]), Neg(s[i])))
\* A type that a number strains by doubling strains it by subtracting its negative, where it has one.
DoublesAsSubtracts == \A t \in Types(s) : \A i \in 1..Len(s) :
                        (t.s /\ s[i].sg = 1 /\ Holds(t, Neg(s[i])) /\ Doubles(t, s[i]) /\ s[i].e = Top(t) - 1) => Subtracts(t, s[i], Neg(s[i]))
\* More numbers strain a type no less.
Grows == [][\A t \in Types(s') : Strains(t, s) \subseteq Strains(t, s')]_s
Emit == Len(s) = Depth => CSVWrite("%1$s", <<ToJson([s |-> s, held |-> {[n |-> t.n, strains |-> Strains(t, s)] : t \in Types(s)}])>>, IOEnv.OUT)
=============================================================================
