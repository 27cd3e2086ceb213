------------------------------- MODULE Parallel -------------------------------
(* Threads which use instances of their own.  An operation (making the instance, or a call) takes several steps; steps *)
(* of different threads interleave in any order.  An operation works on a copy of the condition of its instance, and   *)
(* nothing it works on is seen by another thread, so that its result is that of the history of its instance alone.     *)
(* Beside it runs a machine which differs in one thing: its operations share what they work on.  A schedule on which   *)
(* the results of the two differ tells them apart.                                                                     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Start(t) == 7 * t
Work(t, o, k, u) == (3 * u + 5 * t + 11 * o + k) % 997
\* What a thread has after a number of operations of so many steps, alone.
RECURSIVE Within(_, _, _, _)
Within(t, o, k, u) == IF k = 0 THEN u ELSE Work(t, o, k, Within(t, o, k - 1, u))
RECURSIVE Alone(_, _, _)
Alone(t, o, steps) == IF o = 0 THEN Start(t) ELSE Within(t, o, steps, Alone(t, o - 1, steps))
=============================================================================
