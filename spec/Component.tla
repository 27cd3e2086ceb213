------------------------------- MODULE Component -------------------------------
(* What every component of the package has in common.                                                                *)
(*                                                                                                                   *)
(* An instance is determined by its recipe and the history of calls it accepted: nothing else may influence what it  *)
(* returns.  A rejected call, a rejected construction, encoding, a call to another instance, and what a caller does  *)
(* with arrays it passed or received are no part of that history.  An encoding holds the history at the time it was  *)
(* made; decoding it yields another instance of that history, as often as it is decoded.                             *)
EXTENDS Integers, Sequences, SequencesExt, TLC

Root(r) == <<r>>
After(h, o) == Append(h, o)
Put(f, k, u) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN u ELSE f[x]]
=============================================================================
