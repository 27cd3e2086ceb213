--------------------------------- MODULE Types ---------------------------------
(* The element types of arrays of numbers.  A number is sg * (2^e + o), with an offset o of -1, 0 or 1, so that the ends  *)
(* of every type can be written down and compared without computing with them.  A type of b bits holds an interval of *)
(* the integers.  What a call yields is a function of the numbers it is given and not of the type that holds them, so *)
(* the result of an operation whose exact value the type cannot hold has to come out as it would in real arithmetic.  *)
EXTENDS Integers, Sequences

T(n, b, s) == [n |-> n, b |-> b, s |-> s]
Table == { T("bool", 1, FALSE), T("int8", 8, TRUE), T("uint8", 8, FALSE), T("int16", 16, TRUE), T("uint16", 16, FALSE),
           T("int32", 32, TRUE), T("uint32", 32, FALSE), T("int64", 64, TRUE), T("uint64", 64, FALSE) }
Zero == [sg |-> 1, e |-> 0, o |-> -1]
Numbers(exps) == {Zero} \cup {v \in [sg : {-1, 1}, e : exps, o : {-1, 0, 1}] : (v.e = 0 => v.o = 0) /\ (v.e = 1 => v.o # -1)}
\* 2^e + o is no less than 2^k, and more than 2^k.
AtLeast(v, k) == v.e > k \/ (v.e = k /\ v.o >= 0)
Above(v, k) == v.e > k \/ (v.e = k /\ v.o > 0)
Holds(t, v) == IF v = Zero THEN TRUE
               ELSE IF t.s THEN IF v.sg = 1 THEN ~ AtLeast(v, t.b - 1) ELSE ~ Above(v, t.b - 1)
               ELSE v.sg = 1 /\ ~ AtLeast(v, t.b)
HoldsAll(t, s) == \A i \in 1..Len(s) : Holds(t, s[i])
Types(s) == {t \in Table : HoldsAll(t, s)}
\* Operations whose exact result a type that holds the operands cannot hold: what an implementation must not compute in it.
Top(t) == IF t.s THEN t.b - 1 ELSE t.b
Neg(v) == IF v = Zero THEN v ELSE [v EXCEPT !.sg = - v.sg]
Negates(t, x) == ~ Holds(t, Neg(x))
\* A product is at least 2^(e + e' - 2); twice a number, 2^e or more, is at least 2^(e + 1).
Multiplies(t, x, y) == x # Zero /\ y # Zero /\ x.e + y.e - 2 >= Top(t)
Doubles(t, x) == x # Zero /\ x.o >= 0 /\ x.e + 1 >= Top(t) /\ ~ (t.s /\ x.sg = -1 /\ x.o = 0 /\ x.e + 1 = Top(t))
\* Of x - y, for numbers of opposite signs, or of any numbers of a type without signs.
Less(x, y) == IF x = Zero THEN y # Zero /\ y.sg = 1
              ELSE IF y = Zero THEN x.sg = -1
              ELSE IF x.sg # y.sg THEN x.sg = -1
              ELSE LET smaller == x.e < y.e \/ (x.e = y.e /\ x.o < y.o) larger == y.e < x.e \/ (y.e = x.e /\ y.o < x.o)
                   IN IF x.sg = 1 THEN smaller ELSE larger
Subtracts(t, x, y) == IF t.s THEN x.sg # y.sg /\ x # Zero /\ y # Zero /\ x.o >= 0 /\ y.o >= 0 /\ x.e = Top(t) - 1 /\ y.e = Top(t) - 1 ELSE Less(x, y)
Strains(t, s) == (IF \E i \in 1..Len(s) : Negates(t, s[i]) THEN {"negate"} ELSE {})
                 \cup (IF \E i \in 1..Len(s) : Multiplies(t, s[i], s[i]) THEN {"square"} ELSE {})
                 \cup (IF \E i, j \in 1..Len(s) : i # j /\ Multiplies(t, s[i], s[j]) THEN {"multiply"} ELSE {})
                 \cup (IF \E i \in 1..Len(s) : Doubles(t, s[i]) THEN {"double"} ELSE {})
                 \cup (IF \E i \in 1..Len(s) - 1 : Subtracts(t, s[i + 1], s[i]) \/ Subtracts(t, s[i], s[i + 1]) THEN {"subtract"} ELSE {})
=============================================================================
