"""Writes /verif/properties.jsonl."""
import json, os

F = "diamondback/filters/"
T = "diamondback/transforms/"
M = "diamondback/models/"
C = "diamondback/commons/"
P = []


def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                  anchors=dict(files=files.split(), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=list(observe), hook_needed=None)))


p("C01", "Streaming equivalence: chunking a signal never changes what a filter produces",
  "For every filter that keeps state between calls (FIR, IIR, derivative, integral, PID, rank, Goertzel, polyphase rate, complex exponential, "
  "and complex bandpass and complex frequency filters on complex signals), presenting a signal in any sequence of consecutive non-empty pieces "
  "produces, concatenated, exactly the outputs of presenting it in one call. "
  "Resets and changes of a public setting take effect between the same two samples however the samples around them are grouped into calls. "
  "Two instances fed different groupings of the same signal stay equivalent for every later signal.",
  "inputs histories", "every signal, every partition of it into calls, every interleaving of resets and setting changes between samples",
  "Unit tests call each filter once or twice with one fixed array; no test compares two groupings of one signal.",
  F + "fir_filter.py " + F + "iir_filter.py " + F + "pid_filter.py " + F + "rank_filter.py " + F + "goertzel_filter.py " + F + "polyphase_rate_filter.py "
  + F + "complex_exponential_filter.py " + F + "complex_bandpass_filter.py " + F + "complex_frequency_filter.py",
  [("filter loops carry all state in the instance", F + "fir_filter.py FirFilter.filter and overrides"), ("window index and phase index carried across calls", F + "goertzel_filter.py, polyphase_rate_filter.py")],
  [("s", "delay line", F + "fir_filter.py"), ("_index", "position in the Goertzel window / polyphase phase", F + "goertzel_filter.py, polyphase_rate_filter.py"), ("_phase", "oscillator phase", F + "complex_exponential_filter.py")],
  ["return values of filter"])

p("C02", "FIR filter computes the convolution of its coefficients and all past samples",
  "Each output of a finite impulse response filter is the sum over its forward coefficients of the coefficient times the sample that many steps in the past, "
  "across calls, for real and complex coefficients and samples, and for integer coefficients or samples without truncation. "
  "Samples before the first call are those of the initial state (newest first, zero where unspecified; coefficients are zero padded to a longer state), "
  "and a reset makes the whole past equal to the reset value, so a constant signal at that value is at steady state at once. "
  "There is one output per input.",
  "inputs histories configurations", "every coefficient and state array, real, complex or integer, every signal and every history of calls, resets and coefficient replacements",
  "The unit test checks two designs against tables and one 32-sample real response; state across calls, resets mid stream, complex and integer data are not reached.",
  F + "fir_filter.py", [("delay line shift and dot product", F + "fir_filter.py FirFilter.filter"), ("padding and type of the state", F + "fir_filter.py FirFilter.__init__"), ("reset", F + "fir_filter.py FirFilter.reset")],
  [("b", "forward coefficients", F + "fir_filter.py"), ("s", "last samples, newest first", F + "fir_filter.py")], ["FirFilter.filter return value"])

p("C03", "IIR filter satisfies its difference equation across calls and resets",
  "Each output of an infinite impulse response filter equals the sum of its recursive coefficients times past outputs plus the sum of its forward coefficients times present and past samples, "
  "across calls, for recursive and forward arrays of equal or different lengths and for real, complex and integer values. "
  "After a reset at a value, a filter with unity gain at zero frequency and leading forward coefficient other than one that is then presented that constant value produces that value from the first sample on. "
  "A filter constructed from the coefficients and the state of another continues it, also when zeros are appended to that state. "
  "A non-zero leading recursive coefficient is rejected.",
  "inputs histories configurations", "every pair of coefficient arrays with a zero leading recursive coefficient, every signal, every history of calls and resets",
  "The unit test checks designed coefficients against tables and one fixed response.",
  F + "iir_filter.py", [("direct form II update", F + "iir_filter.py IirFilter.filter"), ("reset at steady state", F + "iir_filter.py IirFilter.reset"), ("coefficient padding", F + "iir_filter.py IirFilter.__init__")],
  [("s", "direct form II state", F + "iir_filter.py"), ("a", "recursive coefficients, a[0] = 0", F + "iir_filter.py"), ("b", "forward coefficients", F + "iir_filter.py")], ["IirFilter.filter return value"])

p("C04", "Designed FIR and IIR filters meet the gain, symmetry and stability contract",
  "A filter designed from a style, frequency, order, cascade count, complement and gain is low pass with response equal to the gain at zero frequency or, with complement, high pass with response magnitude equal to the gain at the Nyquist frequency; "
  "the coefficients scale linearly with the gain, do not depend on the letter case of the style, are symmetric (antisymmetric for a complement of odd order) for FIR designs, and are stable (every pole strictly inside the unit circle) for IIR designs, and a complement design mirrors in frequency the design at one minus the frequency. "
  "Where the style and order can reach it, the magnitude at the specified frequency, raised to the cascade count, is -3 dB; every constraint outside its documented range is rejected.",
  "configurations", "every style, frequency in (0, 1), order, cascade count, complement flag and gain",
  "Unit tests check a handful of designs against coefficient tables, with count 1, no complement and unit gain.",
  F + "fir_filter.py " + F + "iir_filter.py", [("search for the -3 dB scale", F + "fir_filter.py FirFilter.__init__, iir_filter.py IirFilter.__init__"), ("complement by alternating sign", F + "fir_filter.py, iir_filter.py"), ("normalization of gain", F + "iir_filter.py IirFilter._evaluate")],
  [], ["a, b attributes"])

p("C05", "Frequency response, group delay and roots agree with the coefficients",
  "The frequency response of a FIR or IIR filter at every returned frequency f equals its transfer function evaluated at exp(j pi f), raised to the cascade count; frequencies increase by 2/length and lie in [-1, 1), for every length. "
  "The group delay of a symmetric FIR filter is half its order at every frequency where it is defined, scaled by the cascade count, and agrees with the phase slope of the response for any filter away from its zeros and band edges. "
  "The returned zeros and poles are those of the forward and recursive polynomials, each repeated by the cascade count and ordered by magnitude, and evaluating these does not change the filter.",
  "inputs configurations", "every coefficient pair, evaluation length (even or odd), and cascade count",
  "Unit tests only exercise these on one designed filter, if at all.",
  F + "fir_filter.py " + F + "iir_filter.py", [("freqz and rotation to [-1, 1)", F + "fir_filter.py FirFilter.response"), ("group_delay", F + "fir_filter.py FirFilter.delay"), ("roots", F + "fir_filter.py FirFilter.roots, iir_filter.py IirFilter.roots")],
  [], ["return values of response, delay, roots"])

p("C06", "Derivative filters are exact on polynomials up to their derivative",
  "For every supported derivative D and order, once the filter has consumed its order of samples its output on samples of a polynomial of degree less than D is zero and on a polynomial of degree D is D! times the leading coefficient. "
  "The outputs are those of a finite impulse response filter with order + 1 coefficients, also across calls and after a reset, and central approximations of even order are exact for degree D + 1 at the middle of the window. "
  "Unsupported derivative and order pairs are rejected.",
  "inputs configurations histories", "every supported (derivative, order), every polynomial, every chunking",
  "The unit test compares one response per pair for a fixed input at loose tolerance.",
  F + "derivative_filter.py", [("coefficient tables", F + "derivative_filter.py DerivativeFilter.B")], [("s", "delay line", F + "fir_filter.py")], ["DerivativeFilter.filter return value"])

p("C07", "Integral filters accumulate exactly, by the quadrature rule of their order",
  "For every supported order the output of an integral filter is the running sum of all samples so far smoothed by the closed Newton-Cotes quadrature weights of that order (a single unit weight for order zero), starting from zero; these weights are non-negative, symmetric and sum to one, so a constant signal grows the output by exactly that constant per sample once order samples have been consumed. "
  "When the signal returns to zero the output holds exactly the sum of everything that was presented, for ever and across calls. "
  "Unsupported orders are rejected.",
  "inputs histories configurations", "every order in 0..4, every signal and chunking",
  "The unit test checks one sinusoid at a loose tolerance.",
  F + "integral_filter.py " + F + "iir_filter.py", [("quadrature tables", F + "integral_filter.py IntegralFilter.B"), ("accumulator a = [0, 1]", F + "integral_filter.py IntegralFilter.__init__")], [("s", "direct form II state", F + "iir_filter.py")], ["IntegralFilter.filter return value"])

p("C08", "PID filter: proportional, conditionally integrated and differenced terms",
  "Each output is the proportional gain times the sample plus the integral gain times the accumulated integral plus the derivative gain times the difference from the previous sample. "
  "The integral accumulates every sample except one whose addition would bring its magnitude to or beyond the limit, which leaves it unchanged, so an integral that starts below the limit stays below it for every signal; changing the limit takes effect at the next sample and a negative limit is rejected. "
  "State persists across calls, and a reset at a value makes the previous sample and the integral equal to that value.",
  "inputs histories", "every gain triple, every history of signals, limit changes and resets",
  "The unit test runs one signal with an infinite limit.",
  F + "pid_filter.py", [("conditional integration", F + "pid_filter.py PidFilter.filter"), ("limit validation", F + "pid_filter.py PidFilter.limit")], [("s", "previous sample, integral, difference", F + "pid_filter.py"), ("limit", "bound on the integral", F + "pid_filter.py")], ["PidFilter.filter return value"])

p("C09", "Rank filter outputs the ranked member of its sliding window",
  "Each output is a member of the window of the last order + 1 samples (zeros, or the reset value, before the first), namely one whose magnitude has the specified rank in increasing order of magnitude; ranks zero, middle and order are minimum, median and maximum for non-negative signals. "
  "A change of rank takes effect at the next sample without disturbing the window. "
  "A rank outside [0, order] is rejected, at construction and later, and leaves the rank unchanged.",
  "inputs histories", "every order and rank, every signal (with ties), every history of calls, rank changes and resets",
  "The unit test checks a few morphological results on a fixed signal.",
  F + "rank_filter.py", [("sort of the window", F + "rank_filter.py RankFilter.filter"), ("rank validation", F + "rank_filter.py RankFilter.index")], [("s", "window", F + "fir_filter.py"), ("index", "rank", F + "rank_filter.py")], ["RankFilter.filter return value"])

p("C10", "Goertzel filter yields one windowed DFT value per complete window",
  "One output is produced at each sample that completes a window of N samples counted from the first sample ever presented, whatever the grouping into calls, and it is the windowed discrete Fourier transform of exactly those N samples at the filter's frequency, normalized by N (doubled for a real signal), up to the fixed phase of the window length. "
  "Samples of an incomplete window are carried to the next call and never influence a later window. "
  "A change of frequency between windows is honored by the following windows.",
  "inputs histories", "every window, frequency, signal, and grouping into calls, real or complex",
  "The unit test presents whole windows of one exponential and checks the magnitude only.",
  F + "goertzel_filter.py", [("window index carried across calls", F + "goertzel_filter.py GoertzelFilter.filter"), ("state cleared at window end", F + "goertzel_filter.py GoertzelFilter.filter")], [("_index", "position in the window", F + "goertzel_filter.py"), ("s", "recursion state", F + "iir_filter.py")], ["GoertzelFilter.filter return value"])

p("C11", "Window filter applies a symmetric window of its style, elementwise",
  "The output is the elementwise product of the signal and the window, the window has order + 1 coefficients, is symmetric, non-negative, and follows the documented formula of its style (Hann, Hamming, Blackman, Kaiser with beta 7). "
  "With normalization the coefficients sum to order + 1; without it the peak of an even order window is one. "
  "A signal whose length is not order + 1, or that is not one dimensional, is rejected, and filtering never depends on earlier calls.",
  "inputs configurations", "every style in any letter case, every order for which the window is defined, normal or not, every signal",
  "The unit test checks a few coefficient sums.",
  F + "window_filter.py", [("get_window and normalization", F + "window_filter.py WindowFilter.__init__")], [("b", "window", F + "window_filter.py")], ["b, WindowFilter.filter return value"])

p("C12", "Complex exponential keeps phase continuity over any history",
  "Each output is exp(j pi phase) where the phase is the initial phase plus the sum of all frequencies presented before it, over every call, so the signal has unit magnitude and contiguous phase. "
  "The public phase always lies in [-1, 1] and equals the accumulated phase modulo 2. "
  "A frequency beyond [-1, 1], a complex frequency, an empty signal or a phase beyond [-1, 1] is rejected without changing the phase.",
  "inputs histories", "every initial phase, every sequence of frequencies and its grouping into calls, with rejected calls interleaved",
  "The unit test synthesizes one signal in one call.",
  F + "complex_exponential_filter.py", [("phase accumulation and wrap", F + "complex_exponential_filter.py ComplexExponentialFilter.filter")], [("phase", "accumulated phase", F + "complex_exponential_filter.py")], ["filter return value, phase"])

p("C13", "Adaptive complex filters follow their update law sample by sample",
  "For the complex bandpass filter the reference plus the error equals the primary signal, the reference is the coefficient times a unit exponential of contiguous phase at the current frequency, and each next coefficient is the previous plus rate times error times the conjugate exponential. "
  "For the complex frequency filter the reference is the argument of the coefficient over pi, the error is the normalized sample minus the coefficient times the previous normalized sample, the initial coefficient is exp(j pi frequency), and each next coefficient is the previous plus rate times error times the conjugate of the previous normalized sample; a sample of zero magnitude is not normalized. "
  "Coefficients, phase and previous sample persist across calls, rate and frequency changes take effect at the next call, a rate of zero freezes the coefficient, and out of range settings are rejected.",
  "inputs histories configurations", "every frequency, rate, complex or real signal, and history of calls and setting changes",
  "Unit tests check convergence on one signal with loose tolerances.",
  F + "complex_bandpass_filter.py " + F + "complex_frequency_filter.py", [("LMS update", F + "complex_bandpass_filter.py ComplexBandpassFilter.filter"), ("normalized LMS update", F + "complex_frequency_filter.py ComplexFrequencyFilter.filter"), ("setting the frequency reinitializes the coefficient", F + "complex_frequency_filter.py ComplexFrequencyFilter.frequency")],
  [("b", "adapted coefficient", F + "complex_bandpass_filter.py"), ("s", "previous normalized sample", F + "complex_frequency_filter.py")], ["y, e, b returned by filter"])

p("C14", "Polynomial rate filter evaluates the local polynomial at multiples of 1/rate",
  "For n samples and a rate the output has n times rate samples (rounded to nearest), and output k is the local polynomial interpolation of the signal at time k/rate: linear interpolation of adjacent samples for order one, and the least squares polynomial of that order through the four samples around that time for a higher order, with linear extension at both ends. "
  "A linear signal is therefore reproduced exactly at every rate and order, a polynomial of degree up to order (at most three) is reproduced away from the ends, and outputs at integer times equal the samples for orders one and three. "
  "Calls are independent of each other, and signals of fewer than two samples, rates below zero and orders below one are rejected.",
  "inputs configurations", "every signal, rate > 0, order in 1..3",
  "The unit test checks one sinusoid at one rate and order.",
  F + "polynomial_rate_filter.py", [("linear interpolation", F + "polynomial_rate_filter.py PolynomialRateFilter.filter"), ("sliding polyfit", F + "polynomial_rate_filter.py PolynomialRateFilter.filter")], [("rate", "ratio", F + "polynomial_rate_filter.py"), ("order", "polynomial order", F + "polynomial_rate_filter.py")], ["filter return value"])

p("C15", "Polyphase rate filter resamples without loss, gain error or bias",
  "Over any history of calls at one rate, the total number of outputs after n samples is the least integer not below n times rate, so every sample is consumed and the rate is realized without bias however the signal is grouped into calls (where rounding cannot tell the time of an output from that of the next sample, that output may be produced one sample early). "
  "Output k is the dot product of the filter of the bank selected by the fractional part of its time k/rate and the most recent samples at that time; every filter of the bank has unit gain at zero frequency, so after a reset at a value a constant signal at that value is reproduced exactly. "
  "A change of rate restarts the phase at the next sample and keeps the past samples, setting the same rate again changes nothing, and a rate outside [0, 256] is rejected.",
  "inputs histories configurations", "every rate in (0, 256], signal, and history of calls, rate changes and resets",
  "The unit test checks three fixed calls; the output count is only checked to within one.",
  F + "polyphase_rate_filter.py", [("phase accumulation", F + "polyphase_rate_filter.py PolyphaseRateFilter.filter"), ("bank normalization", F + "polyphase_rate_filter.py PolyphaseRateFilter.__init__"), ("rate change restarts the phase", F + "polyphase_rate_filter.py PolyphaseRateFilter.rate")],
  [("_index", "phase", F + "polyphase_rate_filter.py"), ("s", "past samples", F + "polyphase_rate_filter.py")], ["filter return value"])

p("C16", "Diversity model retains a subset of the data and never loses diversity",
  "The retained state always consists of samples that were presented, in distinct presentations; it fills in order of presentation, and once full a sample replaces the member that maximizes the minimum pairwise distance of the state, only if that strictly increases it. "
  "The reported diversity is the minimum pairwise distance of the state whenever the state is full and a further sample has been considered, is zero before, and never decreases until cleared, for each of the four distance styles and every order of at least one. "
  "Grouping samples into calls is irrelevant, clearing returns the model to its initial condition with the same order, a full set of samples assigned to the state is retained as if presented, and a sample of another dimension is rejected without effect.",
  "inputs histories configurations", "every style, order, sample sequence (with duplicates and ties), grouping into calls, and clear",
  "The unit test checks one sequence of twelve points, one style, one call.",
  M + "diversity_model.py", [("greedy replacement", M + "diversity_model.py DiversityModel.fit"), ("distance styles", M + "diversity_model.py DiversityModel.DISTANCE"), ("clear", M + "diversity_model.py DiversityModel.clear")],
  [("s", "retained samples", M + "diversity_model.py"), ("_diversity", "diversity of the state", M + "diversity_model.py")], ["fit return value, s"])

p("C17", "Gaussian model ranks every class by Mahalanobis distance",
  "After a fit, a prediction for each sample lists every class label exactly once, ordered by increasing Mahalanobis distance to the class, whose mean is the mean of its samples and whose covariance is the maximum likelihood covariance of its samples plus the regularization on the diagonal. "
  "Labels may be any integers, the order of training samples and the grouping of prediction samples are irrelevant, and a refit forgets the earlier data. "
  "Prediction before a fit or with another dimension, and a fit with mismatched or non-integer labels, are rejected and leave an earlier fit usable.",
  "inputs histories configurations", "every training set, label set, regularization, sample, and history of fits, rejected fits and predictions",
  "The unit test checks the accuracy on random clusters labelled 0..n.",
  M + "gaussian_model.py", [("per class mean and inverse covariance", M + "gaussian_model.py GaussianModel.fit"), ("ranking", M + "gaussian_model.py GaussianModel.predict")], [("_model", "per class statistics", M + "gaussian_model.py")], ["predict return value"])

p("C18", "Gaussian mixture model ranks every class by mixture likelihood",
  "After a fit, a prediction for each sample lists every class label exactly once, ordered by decreasing sum over the mixture components of the class of weight times exp(minus half the squared Mahalanobis distance); with one component per class the first prediction of a sample is the class of least Mahalanobis distance under the class mean and regularized maximum likelihood covariance. "
  "Labels may be any integers, predictions do not depend on the grouping of samples, and a refit forgets the earlier data. "
  "Prediction before a fit or with another dimension, and a fit with mismatched or non-integer labels or too few samples for the components, are rejected and leave an earlier fit usable.",
  "inputs histories configurations", "every training set, label set, order, regularization, sample, and history of fits, rejected fits and predictions",
  "The unit test checks the accuracy on random clusters labelled 0..n.",
  M + "gaussian_mixture_model.py", [("per class mixture", M + "gaussian_mixture_model.py GaussianMixtureModel.fit"), ("ranking", M + "gaussian_mixture_model.py GaussianMixtureModel.predict")], [("_model", "per class mixtures", M + "gaussian_mixture_model.py")], ["predict return value"])

p("C19", "Three-phase and complex representations are equivalent and reversible",
  "Transforming a complex signal to three phases and back returns the signal, and transforming a three-phase signal without zero sequence (whose phases sum to zero at each sample) to complex and back returns the signal, for both neutral conditions, provided the same condition is used. "
  "The transform is linear, acts on each sample alone, removes exactly the zero sequence component, and phases of a complex signal always sum to zero; the three phases of a unit exponential are unit cosines separated by a third of a cycle. "
  "Without neutral the complex signal is that with neutral times a fixed gain of magnitude one over the square root of three and angle minus thirty degrees.",
  "inputs configurations", "every signal of one or three rows, every length, both neutral conditions",
  "The unit test checks one exponential signal.",
  T + "complex_transform.py", [("Clarke matrix and its inverse", T + "complex_transform.py ComplexTransform.transform")], [], ["transform return value"])

p("C20", "Fourier transform is the windowed DFT, reversible, with correct frequencies",
  "The forward transform at each returned frequency f in [-1, 1) is the sum of window times sample times exp(-j pi f n), divided by the length, for every length, even or odd, frequencies increasing by 2/length; the signal is truncated to the window length. "
  "The inverse of the forward transform with the same window returns the windowed signal divided by the window, hence the signal wherever the window is not zero, and zero at an edge where only the edge of the window is zero. "
  "The transform is linear and does not depend on earlier calls.",
  "inputs configurations", "every signal, real or complex, every window, every length",
  "The unit test checks the peak and an inverse for length 128.",
  T + "fourier_transform.py", [("fft and shift", T + "fourier_transform.py FourierTransform.transform")], [], ["transform return value"])

p("C21", "PSD averages the windowed power spectra of every complete segment",
  "The spectrogram has one row per segment of the window length starting at every multiple of the index that fits completely in the signal, and each row holds the squared magnitude of the windowed discrete Fourier transform of that segment divided by the window length, at the non-negative frequencies 2k/N below one; the power spectrum is the mean of these rows. "
  "Power is non-negative, scales with the square of the signal, and samples that belong to no complete segment have no influence. "
  "A signal shorter than the window, or an all-zero window, is rejected.",
  "inputs configurations", "every signal, window, and segment stride",
  "The unit test checks the shape and the peak of one signal.",
  T + "psd_transform.py", [("segment loop", T + "psd_transform.py PsdTransform.transform")], [], ["transform return value"])

p("C22", "Wavelet analysis is orthonormal filtering, and synthesis reverses it",
  "For every style and order the low and high pass filters are orthogonal to each other and to their own even shifts with energy one half, the high pass filter rejects a constant, and the low pass filter has unit gain at zero frequency. "
  "A level of analysis places the decimated low pass output before the decimated high pass output, along rows then columns, recursively on the leading block for each further level; synthesis of an analysis returns the signal exactly for Haar at every level and shape, and delayed by one less than the filter order for one level of any other style. "
  "The transform is linear, preserves the shape, does not depend on earlier calls, and rejects dimensions that are not unity or a multiple of 2 to the power of the level count.",
  "inputs configurations", "every style and order, every shape and level count, every signal",
  "The unit test checks a few Haar and Daubechies signals.",
  T + "wavelet_transform.py", [("coefficient tables", T + "wavelet_transform.py WaveletTransform.B"), ("quadrature mirror construction", T + "wavelet_transform.py WaveletTransform.__init__"), ("analysis and synthesis recursion", T + "wavelet_transform.py WaveletTransform.transform")],
  [("b", "analysis and synthesis filters", T + "wavelet_transform.py")], ["transform return value, b"])

p("C23", "Z transform maps the s-domain poles and preserves the gain at zero frequency",
  "For every s-domain pair and frequency the recursive result leads with zero, has the order of the s-domain denominator, its characteristic polynomial has exactly the poles obtained from the s-domain roots by the bilinear rule or by the exponential of the impulse invariant rule, and the gain at zero frequency is one. "
  "The forward result of the bilinear rule has exactly the mapped zeros, completed by zeros at the origin, and that of the impulse invariant rule is the sum of the mapped partial fractions. "
  "Leading zero coefficients and a common scale of both arrays do not change the result, a stable s-domain denominator gives poles inside the unit circle, and the arrays passed in are left unchanged. "
  "Empty or all-zero arrays and a frequency that is not positive are rejected.",
  "inputs configurations", "every coefficient pair with distinct roots, frequency > 0, and both methods",
  "The unit test checks one bilinear and one impulse invariant design.",
  T + "z_transform.py", [("bilinear mapping", T + "z_transform.py ZTransform.transform"), ("partial fractions", T + "z_transform.py ZTransform.transform")], [], ["a, b returned"])

p("C24", "Log writes each entry that passes the level once, to the current stream only",
  "An entry is written exactly once, as one line (for an entry without line breaks) with time, level and the verbatim text, to the stream set most recently, if and only if its level is at or above the level set most recently (Info initially; standard output if no stream was ever set); level names are accepted in any letter case, including levels added to loguru by the application. "
  "Replacing the stream neither loses nor repeats entries and never disturbs handlers the application added to loguru itself. "
  "An unknown level or an object that cannot be written is rejected and changes nothing, and an exception is written with its type, message and traceback locations.",
  "histories inputs", "every history of level changes, stream changes, writes, rejected calls and foreign handlers, and every entry text",
  "The unit test writes one entry per level to standard output and checks nothing.",
  C + "log.py", [("lazy initialization", C + "log.py Log.write"), ("stream replacement", C + "log.py Log.stream"), ("level gate", C + "log.py Log.write")],
  [("_identity", "loguru handler owned by Log", C + "log.py"), ("_level", "threshold", C + "log.py")], ["text written to streams"])

p("C25", "Log is linearizable under concurrent writes and reconfiguration",
  "When several threads write entries and change the level or the stream at the same time, the text received by the streams is that of some sequential order of the calls that respects the order within each thread and the real-time order of non-overlapping calls: no accepted entry is lost, repeated, interleaved with another, or sent to a stream that had already been replaced. "
  "At most one stream receives any entry, and no handler is leaked. "
  "No schedule deadlocks, also when a call is rejected.",
  "schedules histories", "every interleaving of calls by two or more threads",
  "The unit test is single threaded.",
  C + "log.py", [("one reentrant lock around every operation", C + "log.py Log._rlock")], [("_rlock", "lock", C + "log.py"), ("_identity", "handler owned by Log", C + "log.py")], ["text written to streams, per-call outcomes"])

p("C26", "A component serialized mid-stream resumes exactly where it stopped",
  "At any point of any history, encoding a filter, model or transform to text and decoding it yields a component that produces, for every later sequence of calls, the same outputs as the original would have. "
  "Encoding does not disturb the original, the original and the decoded component do not influence each other afterwards, and an encoding taken earlier still restores the condition at that time. "
  "The same holds for structures that contain several components, shared or not.",
  "histories crash_points inputs", "every component, every history before the checkpoint, every checkpoint position, every continuation of either copy",
  "The unit test round-trips plain data only.",
  C + "serial.py " + F + "fir_filter.py " + F + "goertzel_filter.py " + F + "polyphase_rate_filter.py " + M + "diversity_model.py", [("pickle of the whole instance", C + "serial.py Serial.encode, Serial.decode"), ("all state lives in the instance", "diamondback/filters, diamondback/models")], [], ["outputs after Serial.decode(Serial.encode(x))"])

p("C27", "Serialization round-trips any object graph, compressed or not",
  "Decoding an encoding returns an equal value of the same types with the same structure, including shared and cyclic references, for any nesting of containers, text, bytes, numbers and numeric arrays, with or without compression and for every text encoding that extends ASCII. "
  "An encoding is Base-85 text of the serialized value, compressed with gzip if and only if compression was asked for, which is the default. Compression is detected on decoding, so a decoder never needs to know how a value was encoded. "
  "The encoded value is text, is not changed by decoding, and encoding does not change the value.",
  "inputs configurations", "every object graph of supported types, both compression settings",
  "The unit test round-trips a few values.",
  C + "serial.py", [("pickle, gzip, Base-85", C + "serial.py Serial.encode"), ("gzip detection by attempt", C + "serial.py Serial.decode")], [], ["Serial.decode(Serial.encode(x))"])

p("C28", "Serial codes are SHA3-256 of the encoded text, and malformed input is rejected",
  "The code of a text is the SHA3-256 digest, in lower case hexadecimal, of its bytes in the given encoding, so equal texts have equal codes and different texts different codes, in any process and at any time. "
  "Decoding a truncated encoding, or text that is not Base-85 or does not hold a serialized value, raises an error rather than returning a value, and an empty text or encoding name is rejected by every operation that takes it. "
  "No operation keeps state: results never depend on earlier calls.",
  "inputs fault_sequences histories", "every text and encoding name, and every truncation of a valid encoding",
  "The unit test computes a code for one text.",
  C + "serial.py", [("sha3_256", C + "serial.py Serial.code"), ("validation", C + "serial.py Serial.decode")], [], ["return values and errors"])

p("C29", "REST requests carry exactly the composed URL, method, parameters and body",
  "A request reaches the server exactly once, with the requested method in any letter case, the path formed by joining the base URL and the relative path with single slashes whatever slashes either carries at its ends, the given query parameters, headers, credentials, and either the binary or the JSON body unchanged. "
  "Changing the URL affects later requests only, and nothing of one request appears in a later one. "
  "An unknown method, or both a non-empty binary and a non-empty JSON body, is rejected without any network traffic.",
  "inputs histories", "every method, URL, path, parameter set, header set and body, and every sequence of requests",
  "The unit test needs a public server and is excluded here; nothing checks what is sent.",
  C + "rest_client.py", [("URL composition", C + "rest_client.py RestClient.request"), ("method validation", C + "rest_client.py RestClient.request")], [("url", "base", C + "rest_client.py")], ["requests received by a server"])

p("C30", "REST faults surface as errors, and liveness reflects reachability only",
  "A response with a status below 400 is returned with its status, headers and complete body; a status of 400 to 599, a refused or dropped connection, and an exceeded timeout raise an error, and the client remains usable for the next request. "
  "Liveness is true when the server answers a probe with any status (redirects are followed, as they are for requests), false when it does not answer, is evaluated anew each time, and never raises. "
  "The configured timeout bounds the wait for a server of requests and of probes.",
  "fault_sequences histories", "every sequence of server behaviours (status codes, closed connections, delays, truncated bodies, restarts)",
  "The unit test needs a public server and is excluded here; faults are never exercised.",
  C + "rest_client.py", [("raise_for_status", C + "rest_client.py RestClient.request"), ("probe", C + "rest_client.py RestClient.live")], [("timeout", "connect and read timeout", C + "rest_client.py")], ["return values and errors of request and live"])

p("C31", "A rejected call raises an error and leaves the component unchanged",
  "Every filter, model and transform raises an error for an empty signal and for every documented out-of-range constructor argument, setting or reset value, rather than accepting it. "
  "After a rejected call the component behaves, for every later sequence of calls, exactly as if the rejected call had not been made. "
  "A rejected construction has no effect on other instances.",
  "inputs histories", "every component, every invalid call, at every position of every history of valid calls",
  "Unit tests do not make invalid calls on live instances.",
  F + "fir_filter.py " + F + "iir_filter.py " + F + "complex_exponential_filter.py " + F + "polyphase_rate_filter.py " + M + "diversity_model.py " + T + "psd_transform.py", [("validation before mutation", "every constructor, setter and method")], [], ["errors, later outputs"])

p("C32", "Arguments are never modified, and instances never influence each other",
  "No constructor, setting, filter, fit, predict or transform call modifies an array or list passed to it, and modifying an array that was passed to or returned by a call afterwards does not change later results of the component (attributes are live views of the condition of a component). "
  "Instances, including instances created from the same arrays or the same class tables, never influence each other, whatever the interleaving of their calls, even when the caller overwrites the attributes of one of them. "
  "Stateless transforms return the same result for the same arguments at any time.",
  "inputs histories", "every component, every interleaving of calls on two or more instances, every later modification of an argument or result by the caller",
  "Unit tests use one instance at a time and never look at their arguments afterwards.",
  F + "fir_filter.py " + F + "iir_filter.py " + F + "derivative_filter.py " + F + "integral_filter.py " + F + "polyphase_rate_filter.py " + T + "wavelet_transform.py " + T + "z_transform.py " + M + "diversity_model.py", [("defensive copies", "constructors and transforms"), ("class level tables shared by instances", F + "derivative_filter.py, integral_filter.py, polyphase_rate_filter.py, " + T + "wavelet_transform.py")], [], ["arguments after calls, outputs"])

p("C33", "Designed filters have the shape their style promises",
  "A designed filter follows the shape of its style, whatever its frequency, order, count, complement and gain. Each of the order zeros of an IIR filter is at Nyquist (at zero frequency for a complement). With w the tangent of half the frequency in radians per sample (of the mirrored frequency for a complement), the attenuation 1 / |H|^2 - 1 of a Butterworth filter is proportional to w to the power 2 order (maximally flat magnitude), and |H|^2 of a Chebyshev filter of order N, relative to its maximum in band, is 1 / (1 + r T_N(w / w0)^2) with r = 10^0.0125 - 1 (Type I, an equal ripple of 0.125 dB in band). "
  "The poles of a Bessel filter are, up to one scale g, exp(g s) of the roots s of the reverse Bessel polynomial of its order (maximally flat delay). Coefficients of an FIR filter are a sinc, symmetric about the middle, multiplied by the window of its style (Blackman, Hamming, Hann, or Kaiser with beta 7).",
  "inputs", "every style, frequency, order, count, complement and gain, where the coefficients determine the shape reliably",
  "Unit tests construct a few designs and look only at the -3 dB frequency or nothing; a wrong ripple, pole angle or window leaves that frequency in place.",
  F + "fir_filter.py " + F + "iir_filter.py " + T + "z_transform.py", [("prototype polynomials", F + "iir_filter.py IirFilter._evaluate"), ("bilinear and impulse invariant transformation", T + "z_transform.py ZTransform.transform"), ("windowed sinc", F + "fir_filter.py FirFilter.__init__")], [], ["coefficients and frequency response of designed filters"])

p("C34", "A call means the same in every form its arguments can be passed",
  "Every constructor and method of filters, models, transforms and serialization takes its arguments by position, in the documented order, or by their documented names, in any order; an argument that is omitted takes its documented default (order 1, count 1, complement False, gain 1.0, length 8192, phase 0.0, regularize 0.1, mixture order 10 and index 100, normal True, neutral True, inverse False, spectrogram False, bilinear True, compress True, encoding utf-8, and no coefficients or state). "
  "Calls that bind the same values to the same parameters have the same outcome, a result or an error, also when a number is a Python or a 64 bit numpy number and a sequence is a list or an array. A call that lacks a required argument, names an unknown one, passes one twice or passes too many raises an error and changes nothing.",
  "inputs", "every callable, every division of its arguments into positional, named and omitted, every order of names, values in and out of range",
  "Unit tests call each constructor and method in one or two forms; combinations of position, name and default number in the thousands.",
  F + "fir_filter.py " + F + "iir_filter.py " + F + "window_filter.py " + F + "polynomial_rate_filter.py " + F + "complex_exponential_filter.py " + M + "gaussian_model.py " + M + "gaussian_mixture_model.py " + T + "complex_transform.py " + T + "fourier_transform.py " + T + "psd_transform.py " + T + "wavelet_transform.py " + T + "z_transform.py " + C + "serial.py", [("signatures and documented defaults", "every constructor and method")], [], ["results or errors of calls"])

p("C35", "Arguments and attributes accept exactly their ranges and hold what was accepted",
  "Frequencies of Goertzel, adaptive and exponential filters (phase) are accepted in [-1, 1], rates of adaptation in [0, 1], rates of a polyphase filter in [0, 256], rates of a polynomial filter, limits of a PID filter and regularizations in [0, inf), frequencies of designs in (0, 1) and of a conversion in (0, inf), an index of a rank filter in [0, order]; orders, counts, lengths and iterations from one (from zero for window filters and diversity models); "
  "derivatives, and orders of derivative, integral and wavelet filters, in their tables; styles by their names in any case. Ends that belong to a range are accepted, and any value beyond, however near, is rejected with an error, at construction, on assignment and in a call alike. "
  "An attribute reads as the last value accepted for it, whatever was assigned to it or to other attributes and rejected since.",
  "inputs histories", "every constructor, attribute and call with a range, every combination of arguments below, at, inside and beyond their ranges, every sequence of assignments",
  "Unit tests try one or two values beyond a range, far from its ends, one argument at a time.",
  F + "goertzel_filter.py " + F + "complex_bandpass_filter.py " + F + "complex_frequency_filter.py " + F + "complex_exponential_filter.py " + F + "polynomial_rate_filter.py " + F + "polyphase_rate_filter.py " + F + "rank_filter.py " + F + "pid_filter.py " + F + "fir_filter.py " + F + "iir_filter.py " + F + "window_filter.py " + M + "gaussian_model.py " + M + "gaussian_mixture_model.py " + M + "diversity_model.py", [("range checks", "constructors and attribute setters")], [], ["results or errors of calls, attributes"])

p("C36", "The integer type that holds an array changes no result",
  "A signal, coefficients, a state, gains, a window, rows or features given as an array of booleans or of integers, signed or unsigned, of 8 to 64 bits and of either byte order, have the outcome, a result or an error, of the same numbers as an array of doubles, to within rounding. "
  "Nothing overflows, wraps, truncates or saturates in the type of an argument, also where sums, differences, products or negatives of its numbers are beyond that type.",
  "inputs", "every filter, model and transform, every integer type, every operation whose exact result the type of its operands cannot hold",
  "Unit tests present doubles and short lists; samples of converters are small integers, whose products and differences wrap around silently in the type that holds them.",
  F + "fir_filter.py " + F + "iir_filter.py " + F + "goertzel_filter.py " + F + "pid_filter.py " + F + "rank_filter.py " + F + "polynomial_rate_filter.py " + F + "polyphase_rate_filter.py " + F + "complex_frequency_filter.py " + M + "diversity_model.py " + M + "gaussian_model.py " + M + "gaussian_mixture_model.py " + T + "psd_transform.py " + T + "fourier_transform.py " + T + "wavelet_transform.py " + T + "complex_transform.py " + T + "z_transform.py",
  [("conversion of arguments", F + "fir_filter.py FirFilter.__init__"), ("differences and products of features", M + "diversity_model.py DiversityModel.model"), ("windowed segments", T + "psd_transform.py PsdTransform.transform")])

p("C37", "Calls of threads on instances of their own do not interfere",
  "When threads make, set up and call instances of their own, of the same class or of different ones, with arguments of their own or the same ones, every call has the result it has when nothing else runs, wherever one thread is interrupted and another goes on; the condition left in each instance is that of its own calls. "
  "The same holds for the transforms without condition, and for encoding, decoding and codes. Training of mixtures, which draws from the global generator of random numbers, is excepted.",
  "interleavings", "every filter, model, transform and serialization, every schedule of bounded preemption of two and three threads, at lines and opcodes of the package",
  "Unit tests use one thread; work that is shared between calls, in a class, a module or a default argument, is only seen when calls overlap at the right place.",
  F + "fir_filter.py " + F + "iir_filter.py " + F + "polyphase_rate_filter.py " + M + "diversity_model.py " + M + "gaussian_model.py " + T + "wavelet_transform.py " + T + "psd_transform.py " + C + "serial.py",
  [("state of an instance", F + "fir_filter.py FirFilter.filter"), ("class tables", T + "wavelet_transform.py WaveletTransform"), ("class distance functions", M + "diversity_model.py DiversityModel.DISTANCE")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
