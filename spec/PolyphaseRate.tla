----------------------------- MODULE PolyphaseRate -----------------------------
(* Polyphase rate filter at rate p / q.  State: the time i of the next output after the current sample, in units of   *)
(* 1 / p of a sample, and the window w of past samples, newest first.  A sample enters the window, every output whose *)
(* time falls before the next sample is produced from the window by the filter of the bank nearest to its fraction,   *)
(* and the sample is consumed.  An output is the pair of bank filter and window.                                      *)
EXTENDS Integers, Sequences, SequencesExt

Taps == 15
Banks == 256
PpInit(p, q) == [p |-> p, q |-> q, i |-> 0, due |-> FALSE, w |-> [k \in 1..Taps |-> 0]]
\* The filter nearest to the fraction i / p, the last one at the end.  At a tie, with the filter before, either will do.
Bank(p, i) == LET k == (2 * Banks * i + p) \div (2 * p) IN IF k > Banks - 1 THEN Banks - 1 ELSE k
Tie(p, i) == (2 * Banks * i + p) % (2 * p) = 0
PpOutputs(s) == IF s.i >= s.p THEN 0 ELSE (s.p - s.i + s.q - 1) \div s.q
\* When 1 / rate is not a binary fraction, rounding decides whether an output whose time is exactly that of the next sample
\* is produced at that sample (kind "due") or, by the last filter, from the window before it (kind "early"): never both.
PpSample(s, x) ==
    LET w == <<x>> \o SubSeq(s.w, 1, Taps - 1)
        n == PpOutputs(s)
        i == s.i + n * s.q - s.p
    IN [s |-> [s EXCEPT !.w = w, !.i = i, !.due = (i = 0)],
        y |-> [k \in 1..n |-> [b |-> Bank(s.p, s.i + (k - 1) * s.q), tie |-> Tie(s.p, s.i + (k - 1) * s.q), w |-> w, kind |-> IF k = 1 /\ s.due THEN "due" ELSE "sure"]]
              \o (IF i = 0 THEN <<[b |-> Banks - 1, tie |-> FALSE, w |-> w, kind |-> "early"]>> ELSE <<>>)]
PpChunk(s, xs) == FoldLeft(LAMBDA acc, x : LET r == PpSample(acc.s, x) IN [s |-> r.s, y |-> acc.y \o r.y], [s |-> s, y |-> <<>>], xs)
\* A change of rate restarts the phase and keeps the past samples; the same rate again changes nothing.
PpRate(s, p, q) == IF p = s.p /\ q = s.q THEN s ELSE IF p * s.q = q * s.p THEN s ELSE [s EXCEPT !.p = p, !.q = q, !.i = 0, !.due = FALSE]
PpReset(s, x) == [s EXCEPT !.w = [k \in 1..Taps |-> x]]
\* An assigned state: its first element is replaced by the next sample.
PpState(s, v) == [s EXCEPT !.w = SubSeq(v, 2, Taps) \o <<0>>]
Sure(y) == SelectSeq(y, LAMBDA o : o.kind # "early")
Ceil(n, p, q) == (n * p + q - 1) \div q
=============================================================================
