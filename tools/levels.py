"""Writes /verif/tools/levels.json: technique and level note of every check."""
import json, os

GRID = " Numbers on exact grids stand for all numbers; trusts TLC and the harness that maps arrays to exact values."
HIST = "every bounded history replayed into the code, recorded sessions decided by TLC"
ORACLE = "TLC as oracle of recorded sessions; every bounded history of the specification replayed"
N = {}


def n(i, module, how, note, grid=True):
    N[i] = dict(technique=f"TLA+ specification {module}, TLC; {how}", note=note + (GRID if grid else ""))


n("C01", "Stream", "every partition replayed into every kind of component, recorded groupings decided by TLC",
  "TLC enumerates every signal with controls and its partitions within bounds and proves grouping irrelevant for the abstract machines; every enumerated behaviour runs on every component of the package, longer random groupings are decided by the trace specification. Outputs are named, equal to 1e-8 relative.", False)
n("C02", "Fir", HIST, "The delay line is checked by TLC against the convolution over the whole past for every history of bounded length; these histories, and random sessions with longer filters and signals, bind it to the code.")
n("C03", "Iir", HIST, "The direct form II recursion is checked by TLC against the difference equation over the whole past; these histories and random sessions bind it to the code. Steady state after a reset is checked for exact dyadic filters.")
n("C04", "Design", "every point of the enumerated configuration space designed by the code, its observations decided by TLC",
  "Observations of each design (gain at the reference, -3 dB margin, symmetry, pole radius, mirror) are quantized to fixed point and decided by the specification; configurations are enumerated by TLC and sampled beyond.", False)
n("C05", "Response (exact cyclotomic evaluation)", ORACLE, "Responses, group delays and polynomials are evaluated exactly in a cyclotomic ring by TLC for exact coefficients and compared at 1e-9; lengths, counts and coefficients are enumerated within bounds and sampled beyond.")
n("C06", "Derivative", HIST, "Exactness on polynomials is an invariant TLC checks on the tables; the code is bound by replay and by recorded sessions with integer polynomials.")
n("C07", "Integral", HIST, "The accumulation identities are invariants; the code is bound by replay and recorded sessions.")
n("C08", "Pid", "every transition of the reachable state graph replayed into the code, recorded sessions decided by TLC", "The limit invariant is checked on every reachable state within a bound on the integral; walks that cover every transition, and random sessions, bind it to the code.")
n("C09", "Rank", HIST, "Rank is stated relationally (any window member of that magnitude rank); every bounded history and random sessions are decided by it.")
n("C10", "Goertzel (exact cyclotomic windowed DFT)", ORACLE, "Window bookkeeping is enumerated by TLC; DFT values are exact formal sums of roots of unity compared at 1e-9.")
n("C11", "Window (exact cyclotomic windows)", "TLC as oracle of every style, order and normalization within bounds", "Hann, Hamming and Blackman are exact formal sums; for Kaiser the exact rational arguments of its Bessel functions are given by TLC; compared at 1e-9.")
n("C12", "ComplexExponential", ORACLE, "Phase accumulation is exact on rational frequencies; every bounded history, rejected calls included, and random sessions are compared at 1e-9.")
n("C13", "Adaptive (exact LMS recursions)", ORACLE, "The adaptive recursions run exactly on dyadic step sizes; histories with changes of rate and frequency are enumerated; compared at 1e-9.")
n("C14", "PolynomialRate (exact least squares weights)", ORACLE, "Interpolation is exact rational arithmetic by TLC, compared at 1e-9 across orders, rates and lengths.")
n("C15", "PolyphaseRate (phase machine)", ORACLE, "The phase machine is exact for rational rates; the filter bank of the code is judged by its contract, and every output is bound to the bank row and past samples named by the specification.")
n("C16", "Diversity", HIST, "The replacement rule is stated relationally with exact squared distances; every bounded history and random sessions are decided by TLC.")
n("C17", "Gaussian (sufficient statistics and decisions)", "enumerated data sets replayed, recorded sessions decided by TLC", "Fitted statistics are exact rationals; decisions between classes are exact comparisons.")
n("C18", "Gaussian and MixtureOracle", "TLC as oracle of recorded sessions, histories decided by the trace specification", "With one component decisions are exact; with more, they are compared with those of the fitted parameters in fixed point. The training of scikit-learn is trusted.")
n("C19", "ComplexTransform (exact Clarke algebra over Q(sqrt 3))", "TLC as oracle of enumerated and random signals", "Exact algebra by TLC, compared at 1e-9.")
n("C20", "Fourier (exact cyclotomic DFT)", "TLC as oracle of enumerated and random signals, windows and lengths", "Exact transform values for exact signals and windows, every length within bounds, compared at 1e-9.")
n("C21", "Psd (exact segment spectra)", "TLC as oracle of enumerated and random signals, windows and strides", "Segmentation is enumerated by TLC, spectra are exact formal sums, compared at 1e-9.")
n("C22", "Wavelet", "TLC as oracle of analysis and synthesis, observations of every table decided by TLC", "Shapes and levels are enumerated by TLC; orthogonality and moments of every table are quantized and decided; reconstruction is compared at 1e-9.")
n("C23", "ZTransform (exact rational mapping)", "TLC as oracle of enumerated and random coefficient pairs", "Bilinear results are exact rationals; impulse invariant poles are compared with the exponentials of the given roots.")
n("C24", "Log", "every bounded history replayed into processes of their own, recorded sessions decided by TLC", "State, threshold, current stream and foreign handlers are enumerated within bounds; entry texts, levels, streams and exceptions are sampled by rendering each abstract entry. Trusts loguru's own formatting of time.", False)
n("C25", "LogConc (algorithm, every interleaving) and LogLin (linearizability)", "schedules of the real code under a controlled scheduler, each recorded history decided by TLC", "TLC visits every interleaving of a model of the lock and its critical sections; the real code runs under a cooperative scheduler in every schedule within a bound of preemptions; each history must have a linearization found by TLC.", False)
n("C26", "Component", "every bounded plan of checkpoints replayed into every kind of component, traces decided by TLC", "TLC enumerates every interleaving of calls, encodings and decodings within bounds; each is run with every component, with continuation in other processes too. Equality of outputs is exact.", False)
n("C27", "Graph", "every small object graph rendered and serialized by the code, traces decided by TLC", "TLC enumerates object graphs with sharing and cycles within bounds; each is rendered with several leaf types, encoded and decoded in each setting, and the decoded graph must be isomorphic.", False)
n("C28", "Codec and Sha3", "TLC computes the digests and the outcome of every class of call; each is run on the code", "SHA3-256 is specified in TLA+ and evaluated by TLC for sampled texts; every truncation of sampled encodings is tried; every bounded history of calls is replayed.", False)
n("C29", "Rest", "every bounded history and every join of paths replayed against loopback services, traces decided by TLC", "The traffic of each call is recorded by servers and decided by the specification; values of parameters, headers and bodies are sampled.", False)
n("C30", "Fault", "every bounded sequence of service behaviours replayed on loopback, traces decided by TLC", "Behaviours (status, drops, stalls, truncation, delays, refusal) are enumerated by TLC; a misbehaving server realizes each. Timing is judged with wide margins.", False)
n("C31", "Component", "every position of a rejected call replayed into every kind of component, traces decided by TLC", "TLC enumerates positions of rejected calls and constructions within bounds; each is run with every component and every kind of invalid call. Equality of outputs is exact.", False)
n("C32", "Component", "every interleaving of instances and modifications replayed into every kind of component, traces decided by TLC", "TLC enumerates interleavings of calls on instances and of modifications of passed and returned arrays within bounds; each is run with every component. Equality of outputs is exact.", False)
n("C33", "Prototype (reverse Bessel and Chebyshev polynomials, window terms)", "TLC as oracle of the shape of random designs",
  "TLC proves the qualities the styles promise (equal ripple, maximally flat delay, zeros at Nyquist) of the polynomials up to order 8, and gives their exact coefficients and values; designs of random constraints are compared with them at 1e-6 or better, after one calibration of the scale of frequency.", False)
n("C34", "Signature", "every form of every call replayed into the code, recorded outcomes decided by TLC",
  "TLC enumerates, for the 36 signatures of the package, how many arguments are passed by position and which others by name, with ill formed variants, and binds each form to its meaning; each form and its full form by name run with sampled values in several representations, and forms of one meaning must have one outcome.", False)
n("C35", "Domain", "every bounded history of values replayed into every kind of object",
  "TLC enumerates, for 23 kinds of objects and calls, every combination of the class of each argument (below the range, at an end, inside, beyond) and every bounded sequence of assignments, with the value each attribute must hold; each history runs with values drawn from the classes, down to the neighbours of an end in double precision. Not-a-number is excluded.", False)
n("C36", "Types", "sequences at the ends of every element type replayed into every part, against their own values as doubles",
  "TLC enumerates, for numbers at and about the ends of nine element types, the types that hold them and the operations whose exact results those types cannot hold; each kind of strain of each type runs through every filter, model and transform, and the outcome has to be that of the same numbers as doubles, whose correctness the other checks decide. Single and half precision are excluded.", False)
n("C37", "Parallel and Component", "schedules of bounded preemption replayed into threads of the real code, traces decided by TLC",
  "TLC enumerates every schedule of two and three threads with bounded preemption, and marks those on which work that operations share would be seen; each runs with real threads that hand over at lines (or opcodes) of the package, for every kind of component, and TLC decides whether every result is that of the history of its instance alone. Training of mixtures, which draws from a generator shared by threads, is excluded.")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "levels.json"), "w") as f:
    json.dump(N, f, indent=1)
