------------------------------- MODULE GaussianMC -------------------------------
(* Every training set of a small grid, split into two classes in every way: properties of the distance.               *)
EXTENDS Gaussian, TLC, Json, IOUtils, CSV

CONSTANTS Points, Count, Regs
VARIABLES xs, ys, reg
Init == /\ xs \in [1..Count -> Points] /\ ys \in [1..Count -> {-7, 3}] /\ reg \in Regs
Next == UNCHANGED <<xs, ys, reg>>
Model == Fit(xs, ys, reg[1], reg[2])
\* The regularized covariance is positive definite, so the distance is defined, non-negative, and zero at the mean only.
Definite == \A c \in DOMAIN Model : Det(Model[c].A) > 0
NonNegative == \A c \in DOMAIN Model : \A x \in Points :
    LET q == Distance(Model[c], x)
    IN q[1] >= 0 /\ (q[1] = 0 <=> \A i \in 1..Len(x) : Model[c].n * x[i] = Model[c].S[i])
\* The order of the training samples is irrelevant.
Unordered == Fit(Reverse(xs), Reverse(ys), reg[1], reg[2]) = Model
\* Only the proportions of the samples of a class matter.
ProportionsOnly == \A c \in DOMAIN Model : \A x \in Points :
    LET z == Members(xs, ys, c) IN Score(Stats(Reduced(z \o z), reg[1], reg[2]), x) = Score(Model[c], x)
\* The adjugate is the inverse times the determinant.
AdjugateInverts == \A c \in DOMAIN Model : LET a == Model[c].A b == Adj(a) IN \A i, j \in 1..Len(a) :
    Sum([k \in 1..Len(a) |-> a[i][k] * b[k][j]]) = (IF i = j THEN Det(a) ELSE 0)
Emit == CSVWrite("%1$s", <<ToJson([x |-> xs, y |-> ys, r |-> reg])>>, IOEnv.OUT)
MCLine == {<<-2>>, <<0>>, <<3>>}
MCPlane == {<<0, 0>>, <<1, 2>>, <<3, -1>>}
MCSpace == {<<0, 0, 1>>, <<1, 2, -1>>, <<-1, 0, 2>>}
MCRegs == {<<1, 10>>, <<1, 1>>}
=============================================================================
