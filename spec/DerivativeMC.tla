----------------------------- MODULE DerivativeMC -----------------------------
(* Every supported stencil, every polynomial of degree at most D with small coefficients, sampled from every start.    *)
EXTENDS Derivative, TLC, Json, IOUtils, CSV

CONSTANTS Span, Starts

\* The documented stencils, times K.
Stencil(d, o) ==
    CASE <<d, o>> = <<1, 1>> -> <<144, -144>>
      [] <<d, o>> = <<1, 2>> -> <<72, 0, -72>>
      [] <<d, o>> = <<1, 4>> -> <<-12, 96, 0, -96, 12>>
      [] <<d, o>> = <<2, 2>> -> <<144, -288, 144>>
      [] <<d, o>> = <<2, 4>> -> <<36, 0, -72, 0, 36>>
      [] <<d, o>> = <<2, 6>> -> <<-6, 48, 6, -96, 6, 48, -6>>
      [] <<d, o>> = <<2, 8>> -> <<1, -16, 64, 16, -130, 16, 64, -16, 1>>
      [] <<d, o>> = <<3, 4>> -> <<72, -144, 0, 144, -72>>
      [] <<d, o>> = <<3, 6>> -> <<18, 0, -54, 0, 54, 0, -18>>
      [] <<d, o>> = <<3, 8>> -> <<-3, 24, 6, -72, 0, 72, -6, -24, 3>>

VARIABLES pair, poly, n0, n, s, y
vars == <<pair, poly, n0, n, s, y>>
W == [i \in 1..(pair[2] + 1) |-> <<Stencil(pair[1], pair[2])[i], 0>>]

Init == /\ pair \in Pairs
        /\ poly \in UNION {[1..k -> Span] : k \in 1..(pair[1] + 1)}
        /\ n0 \in Starts
        /\ n = 0
        /\ s = CZeros(pair[2] + 1)
        /\ y = Z
Next == /\ n < 2 * pair[2] + 3
        /\ s' = CShift(s, <<PolyAt(poly, n0 + n), 0>>)
        /\ y' = CDot(W, s')
        /\ n' = n + 1
        /\ UNCHANGED <<pair, poly, n0>>

StencilsExact == /\ Annihilates(Stencil(pair[1], pair[2]), pair[1])
                 /\ Unit(Stencil(pair[1], pair[2]), pair[1])
                 /\ Central(Stencil(pair[1], pair[2]), pair[1], pair[2])
Expected == IF Len(poly) = pair[1] + 1 THEN Fact(pair[1]) * poly[pair[1] + 1] ELSE 0
ExactOnPolynomials == n > pair[2] => y = <<K * Expected, 0>>

Emit == n = 2 * pair[2] + 3 =>
            CSVWrite("%1$s", <<ToJson([pair |-> pair, poly |-> poly, n0 |-> n0, n |-> n, want |-> Expected,
                                       x |-> [i \in 1..n |-> PolyAt(poly, n0 + i - 1)]])>>, IOEnv.OUT)
=============================================================================
