---------------------------------- MODULE Fault ----------------------------------
(* What a client makes of a service that misbehaves.  A behaviour of the service decides, alone, the outcome of a      *)
(* request and of a probe; nothing is remembered by the client but its timeout.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* Complete answers, by the form of their body; faults before an answer; faults within an answer.
Forms == {"length", "chunked", "close", "gzip", "empty", "large"}
Late == {"slow", "late"}
Faults == {"refused", "full", "drop_early", "drop_request", "drop_status", "garbage", "stall", "stall_early", "stall_status"}
Partial == {"drop_body", "drop_chunk", "stall_body"}
\* The service sends the client to another, which answers; to one that does not; or round and round.
Sent == {"redirect", "redirect_dead", "redirect_loop"}
Bodiless == {204, 304}
Stalls == {"full", "stall", "stall_early", "stall_status", "stall_body"}
\* Nobody reads a request, or a connection at all.
Unheard == {"refused", "full", "drop_early", "stall_early"}

Answers(m) == m.kind \in Forms \cup Late \cup {"redirect"}
Succeeds(m) == Answers(m) /\ m.status < 400
\* A timeout shorter than a late answer may or may not be exceeded by it; garbage may count as an answer.
Alive(m) == CASE Answers(m) -> {TRUE}
              [] m.kind \in Partial -> {TRUE}
              [] m.kind = "garbage" -> {TRUE, FALSE}
              [] OTHER -> {FALSE}
=============================================================================
