------------------------------- MODULE Goertzel -------------------------------
(* Goertzel filter at a frequency f = 2 m / L, so that exp(j pi f) = zeta^m.                                          *)
(*                                                                                                                   *)
(* The state carries the samples of the incomplete window.  A sample that completes the window produces               *)
(*    u * zeta^(m (N-1)) * Sum over k in 0..N-1 of w[k] x[k] zeta^(-m k)                                              *)
(* (over N, which the harness divides by), with u = 2 for a real signal and 1 for a complex one.                      *)
EXTENDS Cyclo

GoInit(m) == [m |-> m, buf |-> <<>>]
GoTerms(L, w, m, u, buf) == [k \in 1..Len(w) |-> <<(m * (Len(w) - 1) - m * (k - 1)) % L, CScale(u, CMul(w[k], buf[k]))>>]
GoValue(L, w, m, u, buf) == CyOf(L, GoTerms(L, w, m, u, buf))
\* A sample, and a chunk, with the completed windows as terms.
GoSampleTerms(L, w, u, q, x) ==
    LET buf == Append(q.buf, x)
    IN IF Len(buf) = Len(w) THEN [q |-> [q EXCEPT !.buf = <<>>], y |-> <<GoTerms(L, w, q.m, u, buf)>>]
       ELSE [q |-> [q EXCEPT !.buf = buf], y |-> <<>>]
GoChunkTerms(L, w, u, q, x) ==
    FoldLeft(LAMBDA acc, s : LET r == GoSampleTerms(L, w, u, acc.q, s) IN [q |-> r.q, y |-> acc.y \o r.y], [q |-> q, y |-> <<>>], x)
Dense(L, r) == [q |-> r.q, y |-> [i \in 1..Len(r.y) |-> CyOf(L, r.y[i])]]
GoSample(L, w, u, q, x) == Dense(L, GoSampleTerms(L, w, u, q, x))
GoChunk(L, w, u, q, x) == Dense(L, GoChunkTerms(L, w, u, q, x))
=============================================================================
