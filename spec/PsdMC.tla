-------------------------------- MODULE PsdMC --------------------------------
(* A signal grows one sample at a time: the spectrogram only gains rows, each when its segment completes.              *)
EXTENDS Psd, FiniteSets, TLC, Json, IOUtils, CSV

CONSTANTS Depth, Samples, Windows, Strides
VARIABLES b, stride, x, rows, fresh
Init == b \in Windows /\ stride \in Strides /\ x = <<>> /\ rows = <<>> /\ fresh = 0
Next == /\ Len(x) < Depth
        /\ \E s \in Samples : x' = Append(x, s)
        /\ rows' = PsRows(b, x', stride)
        /\ fresh' = Len(rows') - Len(rows)
        /\ UNCHANGED <<b, stride>>
N == Len(b)
RowPerSegment == Len(rows) = Cardinality({k \in 0..Len(x) : k % stride = 0 /\ k + N <= Len(x)})
OnlyGains == fresh \in {0, 1}
Prefix == [][SubSeq(rows', 1, Len(rows)) = rows]_<<b, stride, x, rows, fresh>>
\* The power at zero frequency is the squared magnitude of the weighted sum.
ZeroFrequency == \A i \in 1..Len(rows) : rows[i][1] = CyMono(N, 0, <<CNorm2(CDot(b, SubSeq(x, (i - 1) * stride + 1, (i - 1) * stride + N))), 0>>)
\* Power is real: equal to its own conjugate.
IsReal == \A i \in 1..Len(rows) : \A k \in 1..Len(rows[i]) : rows[i][k] = CyConj(rows[i][k])
Quadratic == \A i \in 1..Len(rows) : LET d == [j \in 1..Len(x) |-> CScale(-2, x[j])] IN PsRows(b, d, stride)[i] = [k \in 1..Len(rows[i]) |-> CyScale(<<4, 0>>, rows[i][k])]
Spec == Init /\ [][Next]_<<b, stride, x, rows, fresh>>
Emit == Len(x) > 0 => CSVWrite("%1$s", <<ToJson([b |-> b, stride |-> stride, x |-> x, y |-> rows])>>, IOEnv.OUT)
MCWindows == {<<<<1, 0>>>>, <<<<2, 0>>, <<-1, 0>>>>, <<<<1, 0>>, <<0, 0>>, <<3, 0>>>>, <<<<1, 0>>, <<2, 0>>, <<2, 0>>, <<1, 0>>>>}
MCSamples == {<<0, 0>>, <<1, 0>>, <<-1, 2>>}
=============================================================================
