-------------------------------- MODULE CodecMC --------------------------------
(* Every history of operations of bounded length; and why a truncated text cannot be taken for a whole one.          *)
EXTENDS Codec, Json, IOUtils, CSV

CONSTANTS Depth, Limit
VARIABLES h, n
vars == <<h, n>>

\* n: a number of bytes of a serialized value.
Init == h = <<>> /\ n \in 1..Limit
Next == /\ n = 1 /\ Len(h) < Depth
        /\ \E o \in Ops : h' = Append(h, o)
        /\ UNCHANGED n

\* Any shorter text holds fewer bytes: the last byte, which ends the value, is missing from it.
Inverse85 == ByteLength(TextLength(n)) = n
TruncationLosesTheEnd == \A cut \in 0..(TextLength(n) - 1) : ByteLength(cut) < n
\* Nothing but valid arguments is accepted.
Total == \A o \in Ops : Accepted(o[1], o[2]) => o[2] \notin {"empty", "noname", "unknown", "truncated", "alphabet", "noise", "foreign", "unencodable"}

Emit == (n = 1 /\ Len(h) = Depth) => CSVWrite("%1$s", <<ToJson([h |-> [i \in 1..Len(h) |-> [op |-> h[i][1], class |-> h[i][2]]]])>>, IOEnv.OUT)
=============================================================================
