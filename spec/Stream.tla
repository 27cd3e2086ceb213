-------------------------------- MODULE Stream --------------------------------
(* Streaming equivalence.                                                                                            *)
(*                                                                                                                   *)
(* A streaming component consumes atoms: samples, and controls (a reset, or a change of a setting) that take effect  *)
(* between two samples.  A call presents consecutive samples; the component consumes them one by one.  The output of *)
(* a call is therefore the concatenation of what each of its samples produces after everything that preceded it, and *)
(* never depends on how samples were grouped into calls.                                                             *)
EXTENDS Integers, Sequences, SequencesExt

\* A machine is an initial state and a step: Step(s, atom) = [s |-> next state, y |-> sequence of outputs].
\* A call folds the machine over its samples.
RunCall(Step(_, _), s, atoms) ==
    FoldLeft(LAMBDA acc, a : LET r == Step(acc.s, a) IN [s |-> r.s, y |-> acc.y \o r.y], [s |-> s, y |-> <<>>], atoms)

\* Machines that represent how the components of the code keep their condition.
\* free: the whole past (no component can depend on more).
FreeStep(s, a) == LET n == Append(s, a) IN [s |-> n, y |-> IF a.k = "s" THEN <<n>> ELSE <<>>]
\* delay: the last two samples; a control overwrites them (FIR, derivative, rank, PID).
DelayStep(s, a) == IF a.k = "c" THEN [s |-> <<a.n, a.n>>, y |-> <<>>]
                   ELSE [s |-> <<a.n, s[1]>>, y |-> <<a.n * 100 + s[1] * 10 + s[2]>>]
\* window: a position in a window of three samples, whose sum is produced when it is complete (Goertzel).
WindowStep(s, a) == IF a.k = "c" THEN [s |-> [s EXCEPT !.g = a.n], y |-> <<>>]
                    ELSE IF s.i = 2 THEN [s |-> [s EXCEPT !.i = 0, !.u = 0], y |-> <<s.u + s.g * a.n>>]
                    ELSE [s |-> [s EXCEPT !.i = @ + 1, !.u = @ + s.g * a.n], y |-> <<>>]
\* rate: a phase that advances by 2 per output and by 3 per sample: none, one or two outputs per sample (rates).
RECURSIVE RateDrain(_, _)
RateDrain(s, n) == IF s >= 3 THEN [s |-> s - 3, y |-> <<>>]
                   ELSE LET r == RateDrain(s + 2, n) IN [s |-> r.s, y |-> <<<<s, n>>>> \o r.y]
RateStep(s, a) == IF a.k = "c" THEN [s |-> 0, y |-> <<>>] ELSE RateDrain(s, a.n)
\* phase: an accumulated phase modulo eight (oscillators).
PhaseStep(s, a) == IF a.k = "c" THEN [s |-> a.n, y |-> <<>>] ELSE [s |-> (s + a.n) % 8, y |-> <<s>>]

Machines == {"free", "delay", "window", "rate", "phase"}
StepOfMachine(m, s, a) == CASE m = "free" -> FreeStep(s, a) [] m = "delay" -> DelayStep(s, a) [] m = "window" -> WindowStep(s, a)
                          [] m = "rate" -> RateStep(s, a) [] OTHER -> PhaseStep(s, a)
InitOfMachine(m) == CASE m = "free" -> <<>> [] m = "delay" -> <<0, 0>> [] m = "window" -> [i |-> 0, u |-> 0, g |-> 1] [] OTHER -> 0
=============================================================================
