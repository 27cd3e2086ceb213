------------------------------- MODULE Signature -------------------------------
(* What a call means.  A signature is the sequence of the parameters of a call, each with the text of its documented   *)
(* default, or "" when it is required.  A form of call passes texts by position and by name; it means the binding of    *)
(* every parameter to a text.  A form is ill when a required parameter is missing, when a parameter is passed twice,    *)
(* when a name is unknown, or when there are too many positions.                                                       *)
EXTENDS Integers, Sequences, FiniteSets

P(n, d) == [n |-> n, d |-> d]
Fir == <<P("style", "''"), P("frequency", "0.0"), P("order", "1"), P("count", "1"), P("complement", "False"), P("gain", "1.0"), P("b", "None"), P("s", "None")>>
Iir == SubSeq(Fir, 1, 6) \o <<P("a", "None"), P("b", "None"), P("s", "None")>>
Sweep == <<P("length", "8192"), P("count", "1")>>
Tuned == <<P("frequency", ""), P("rate", "")>>
Styled == <<P("style", ""), P("order", "")>>
Labelled == <<P("x", ""), P("y", "")>>
One(n) == <<P(n, "")>>

Table == [
    FirFilter |-> Fir,
    IirFilter |-> Iir,
    ComplexBandpassFilter |-> Tuned,
    ComplexFrequencyFilter |-> Tuned,
    ComplexExponentialFilter |-> <<P("phase", "0.0")>>,
    DerivativeFilter |-> <<P("derivative", ""), P("order", "")>>,
    IntegralFilter |-> One("order"),
    GoertzelFilter |-> <<P("b", ""), P("frequency", "")>>,
    PidFilter |-> One("b"),
    PolynomialRateFilter |-> <<P("rate", ""), P("order", "1")>>,
    PolyphaseRateFilter |-> One("rate"),
    RankFilter |-> <<P("index", ""), P("order", "")>>,
    WindowFilter |-> Append(Styled, P("normal", "True")),
    DiversityModel |-> Styled,
    GaussianModel |-> <<P("regularize", "0.1")>>,
    GaussianMixtureModel |-> <<P("order", "10"), P("index", "100"), P("regularize", "0.1")>>,
    WaveletTransform |-> Styled,
    delay |-> Sweep,
    response |-> Sweep,
    roots |-> <<P("count", "1")>>,
    filter |-> One("x"),
    track |-> One("d"),
    reset |-> One("x"),
    diversity |-> One("x"),
    gaussian_fit |-> Labelled,
    gaussian_predict |-> One("x"),
    mixture_fit |-> Labelled,
    mixture_predict |-> One("x"),
    complex |-> <<P("x", ""), P("neutral", "True")>>,
    fourier |-> <<P("x", ""), P("b", ""), P("inverse", "False")>>,
    psd |-> <<P("x", ""), P("b", ""), P("index", ""), P("spectrogram", "False")>>,
    wavelet |-> <<P("x", ""), P("count", ""), P("inverse", "False")>>,
    z |-> <<P("u", ""), P("v", ""), P("frequency", ""), P("bilinear", "True")>>,
    code |-> <<P("x", ""), P("encoding", "'utf-8'")>>,
    decode |-> <<P("x", ""), P("encoding", "'utf-8'")>>,
    encode |-> <<P("x", ""), P("compress", "True"), P("encoding", "'utf-8'")>>]

\* A form: texts by position, and pairs of name and text.
Named(f) == {f.kw[i][1] : i \in 1..Len(f.kw)}
Names(sig) == {sig[i].n : i \in 1..Len(sig)}
Well(sig, f) == /\ Len(f.pos) <= Len(sig)
                /\ Cardinality(Named(f)) = Len(f.kw)
                /\ Named(f) \subseteq {sig[i].n : i \in Len(f.pos) + 1..Len(sig)}
                /\ \A i \in Len(f.pos) + 1..Len(sig) : sig[i].d # "" \/ sig[i].n \in Named(f)
TextOf(f, n) == f.kw[CHOOSE i \in 1..Len(f.kw) : f.kw[i][1] = n][2]
Meaning(sig, f) == [i \in 1..Len(sig) |-> IF i <= Len(f.pos) THEN f.pos[i] ELSE IF sig[i].n \in Named(f) THEN TextOf(f, sig[i].n) ELSE sig[i].d]
=============================================================================
