-------------------------- MODULE ComplexExponential --------------------------
(* Complex exponential filter.  The phase is an integer in units of 1 / K (relative to pi), accumulated over every    *)
(* frequency presented and kept modulo 2.  An output is the phase at its sample: exp(j pi p / K).                     *)
EXTENDS Integers, Sequences, SequencesExt

\* The representative in [-K, K] nearest to zero; -K and K represent the same phase.
Wrap(K, p) == LET m == p % (2 * K) IN IF m > K THEN m - 2 * K ELSE m
CeChunk(K, p, x) == FoldLeft(LAMBDA acc, f : [p |-> Wrap(K, acc.p + f), y |-> Append(acc.y, acc.p)], [p |-> p, y |-> <<>>], x)
InRange(K, x) == \A i \in DOMAIN x : -K <= x[i] /\ x[i] <= K
=============================================================================
