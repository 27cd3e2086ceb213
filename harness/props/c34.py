"""C34 The meaning of a call does not depend on the form in which arguments are passed."""

import ast
import copy
import pickle
import random
from multiprocessing import get_context

from common import *
from sessions import Names

SIGNAL = [1.0, -2.0, 0.5, 3.0, 0.0, -1.0, 2.5, 4.0, -3.5, 1.0, 1.0, 2.0]
# Texts that stand for arrays and objects.
THINGS = {
    "taps": [0.5, -0.25, 1.0], "tap": [2.0], "recursive": [0.0, 0.5, -0.25], "leading": [0.5, 0.5], "state": [1.0, 0.0, -2.0], "short": [1.0],
    "empty": [], "signal": SIGNAL, "brief": [3.0, 1.0], "gentle": [0.5, -0.25, 1.0, 0.125], "ints": [1, 2, 3, 4], "complex": [1.0 + 2.0j, 0.5, -1.0j, 3.0], "window": [0.25, 0.5, 1.0, 0.5], "flat": [1.0, 1.0],
    "zeros": [0.0, 0.0], "gains": [0.1, 0.2, 0.5], "rows": [[1.0, 2.0], [0.5, -1.0], [2.0, 2.0]], "phases": [[1.0, 2.0, 3.0], [0.5, -1.0, 0.0], [2.0, 2.0, 1.0]],
    "pair": [[1.0, 2.0], [0.5, -1.0]], "features": [[0.0, 0.0], [1.0, 0.5], [0.5, 1.0], [5.0, 5.0], [6.0, 5.5], [5.5, 6.5]], "labels": [0, 0, 0, 1, 1, 1], "others": [1, 0, 1, 0, 1, 0], "fewer": [0, 1],
    "query": [[0.2, 0.1], [5.1, 6.0], [2.0, 3.0]], "deep": [1.0, 3.0, 5.0, 7.0, 2.0, 2.0, 0.0, 1.0], "polynomial": [1.0, 2.0, 0.5], "numerator": [1.0, 0.5],
}
S = {
    "style_fir": ("'Hann'", "'kaiser'", "'Hamming'", "'Bessel'"), "style_iir": ("'Bessel'", "'Butterworth'", "'chebyshev'", "'Hann'"), "frequency": ("0.25", "0.1", "0.5", "0.0", "1.0", "-0.25"),
    "order": ("4", "7", "2", "0", "-1"), "count": ("2", "3", "0"), "complement": ("True", "False"), "gain": ("2.0", "-0.5"), "arrays": ("taps", "tap", "empty"), "state": ("state", "short", "empty"),
}
POOLS = {
    "FirFilter": dict(style=S["style_fir"], frequency=S["frequency"][:5], order=S["order"], count=S["count"], complement=S["complement"], gain=S["gain"], b=S["arrays"], s=S["state"]),
    "IirFilter": dict(style=S["style_iir"], frequency=S["frequency"][:5], order=("3", "2", "1", "0"), count=S["count"], complement=S["complement"], gain=S["gain"], a=("recursive", "leading", "empty"), b=S["arrays"], s=S["state"]),
    "ComplexBandpassFilter": dict(frequency=("0.25", "-0.5", "1.5"), rate=("0.1", "0.5", "1.0", "-0.1", "2.0")),
    "ComplexFrequencyFilter": dict(frequency=("0.25", "-0.5", "1.5"), rate=("0.1", "0.5", "1.0", "-0.1", "2.0")),
    "ComplexExponentialFilter": dict(phase=("0.25", "-0.5", "1.0", "2.0")),
    "DerivativeFilter": dict(derivative=("1", "2", "3", "0"), order=("1", "2", "3", "4", "9")),
    "IntegralFilter": dict(order=("0", "1", "2", "8", "9", "-1")),
    "GoertzelFilter": dict(b=("window", "flat", "taps", "empty"), frequency=("0.25", "0.5", "-1.5")),
    "PidFilter": dict(b=("gains", "taps", "empty")),
    "PolynomialRateFilter": dict(rate=("2.0", "0.5", "1.0", "0.0", "-1.0"), order=("2", "3", "0", "1")),
    "PolyphaseRateFilter": dict(rate=("2.0", "0.5", "1.5", "0.0")),
    "RankFilter": dict(index=("0", "2", "1", "-1", "9"), order=("2", "4", "0", "-1")),
    "WindowFilter": dict(style=("'Hann'", "'Hamming'", "'kaiser'", "'Welch'"), order=("4", "11", "0", "-1"), normal=("False", "True")),
    "DiversityModel": dict(style=("'Euclidean'", "'manhattan'", "'Chebyshev'", "'Other'"), order=("1", "2", "4", "-1")),
    "GaussianModel": dict(regularize=("0.5", "0.0", "1.0", "-1.0")),
    "GaussianMixtureModel": dict(order=("2", "1", "3", "0"), index=("50", "20", "0"), regularize=("0.5", "0.25", "-1.0")),
    "WaveletTransform": dict(style=("'Haar'", "'daubechies'", "'Symlet'", "'Coiflet'", "'Other'"), order=("1", "3", "5", "2")),
    "delay": dict(length=("64", "7", "0"), count=("2", "3", "0")),
    "response": dict(length=("64", "7", "0"), count=("2", "3", "0")),
    "roots": dict(count=("2", "3")),
    "filter": dict(x=("signal", "gentle", "brief", "ints", "complex", "pair")),
    "track": dict(d=("signal", "brief", "ints", "complex", "pair")),
    "reset": dict(x=("2.0", "0.5", "-1.0", "signal")),
    "diversity": dict(x=("rows", "pair", "phases", "signal")),
    "gaussian_fit": dict(x=("features", "signal", "rows"), y=("labels", "others", "fewer")),
    "gaussian_predict": dict(x=("query", "phases", "signal")),
    "mixture_fit": dict(x=("features", "signal", "rows"), y=("labels", "others", "fewer")),
    "mixture_predict": dict(x=("query", "phases", "signal")),
    "complex": dict(x=("phases", "complex", "pair"), neutral=("False", "True")),
    "fourier": dict(x=("ints", "window", "complex", "brief"), b=("window", "ints", "flat", "zeros"), inverse=("True", "False")),
    "psd": dict(x=("signal", "deep", "brief", "empty"), b=("window", "flat", "zeros"), index=("1", "2", "4", "9"), spectrogram=("True", "False")),
    "wavelet": dict(x=("deep", "ints", "brief"), count=("1", "2", "0", "-1"), inverse=("True", "False")),
    "z": dict(u=("polynomial", "numerator", "empty"), v=("tap", "numerator", "polynomial"), frequency=("0.25", "0.5", "0.0", "-0.5"), bilinear=("False", "True")),
    "code": dict(x=("'text'", "'caf\\u00e9'", "''"), encoding=("'latin-1'", "'utf-16'", "'ascii'", "'nothing'")),
    "decode": dict(x=("encoded", "compressed", "latin", "'nonsense'"), encoding=("'latin-1'", "'ascii'", "'nothing'")),
    "encode": dict(x=("'caf\\u00e9'", "{'a': [1, 2]}", "[0.5]"), compress=("False", "True"), encoding=("'latin-1'", "'ascii'", "'nothing'")),
}
HOSTS = ("FirFilter", "IirFilter", "DerivativeFilter", "IntegralFilter", "GoertzelFilter", "PidFilter", "RankFilter", "ComplexBandpassFilter", "ComplexFrequencyFilter")
EXACT = ("code", "decode", "encode")


def present(c, text, rng):
    """One of the representations a caller may choose for a text."""

    from diamondback import Serial

    if text == "encoded":
        return Serial.encode({"a": [1, 2]}, False)
    if text == "compressed":
        return Serial.encode({"a": [1, "caf\u00e9"]}, True)
    if text == "latin":
        return Serial.encode("caf\u00e9", False, "latin-1")
    if text in THINGS:
        v = copy.deepcopy(THINGS[text])
        arrays = c in ("gaussian_fit", "gaussian_predict", "mixture_fit", "mixture_predict")
        return numpy.array(v) if arrays or rng.random() < 0.5 else v
    if text == "g":
        return 1
    v = ast.literal_eval(text)
    if c in EXACT or v is None:
        return v
    r = rng.random()
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return rng.choice((numpy.int64, numpy.int32))(v) if r < 0.4 else v
    if isinstance(v, float):
        return numpy.float64(v) if r < 0.4 else int(v) if r < 0.7 and v == int(v) else v
    return numpy.str_(v) if r < 0.3 else v


def hosts(c):
    """The classes a method is called on."""

    if c == "track":
        return ["ComplexBandpassFilter", "ComplexFrequencyFilter"]
    if c == "filter":
        return [h for h in HOSTS if not h.startswith("Complex")] + ["PolynomialRateFilter", "PolyphaseRateFilter", "WindowFilter", "ComplexExponentialFilter"]
    return list(HOSTS) + (["PolyphaseRateFilter"] if c == "reset" else []) if c in ("delay", "response", "roots", "reset") else [None]


def host(c, name):
    """Prepares what a call is made on: a function of nothing but the choice of it, and how to look at the outcome."""

    import diamondback as d

    if c in ("complex", "fourier", "psd", "z"):
        cls = dict(complex=d.ComplexTransform, fourier=d.FourierTransform, psd=d.PsdTransform, z=d.ZTransform)[c]
        return lambda: (cls.transform, None)
    if c in EXACT:
        return lambda: (getattr(d.Serial, c), None)
    if c == "wavelet":
        return lambda: (lambda o: (o.transform, o))(d.WaveletTransform("Haar", 1))
    if c == "diversity":
        return lambda: (lambda o: (o.fit, o))(d.DiversityModel("Euclidean", 2))
    if c.startswith(("gaussian_", "mixture_")):
        def model():
            o = d.GaussianModel() if c[0] == "g" else d.GaussianMixtureModel(2, 50, 0.5)
            o.fit(numpy.array(THINGS["features"]), numpy.array(THINGS["labels"]))
            return getattr(o, c.split("_")[1]), o
        return model
    if c == "track":
        c = "filter"
    if name is None:
        return lambda: (getattr(d, c), None)
    build = dict(FirFilter=lambda: d.FirFilter(b=[0.5, -0.25, 1.0]), IirFilter=lambda: d.IirFilter(a=[0.0, 0.5], b=[1.0, 0.25]), DerivativeFilter=lambda: d.DerivativeFilter(1, 2), IntegralFilter=lambda: d.IntegralFilter(2),
                 GoertzelFilter=lambda: d.GoertzelFilter([0.25, 0.5, 1.0], 0.25), PidFilter=lambda: d.PidFilter(THINGS["gains"]), RankFilter=lambda: d.RankFilter(1, 2), ComplexBandpassFilter=lambda: d.ComplexBandpassFilter(0.25, 0.1),
                 ComplexFrequencyFilter=lambda: d.ComplexFrequencyFilter(0.25, 0.1), PolynomialRateFilter=lambda: d.PolynomialRateFilter(0.5, 2), PolyphaseRateFilter=lambda: d.PolyphaseRateFilter(2.0), WindowFilter=lambda: d.WindowFilter("Hann", 11),
                 ComplexExponentialFilter=lambda: d.ComplexExponentialFilter(0.25))[name]
    return lambda: (lambda o: (getattr(o, c), o))(build())


def look(o):
    """What an instance shows of itself, and what it does with a signal."""

    kind = type(o).__name__
    out = []
    for name in ("a", "b", "s", "frequency", "rate", "order", "index", "phase", "limit", "regularize", "shape"):
        v = getattr(o, name, None)
        if v is not None and not callable(v):
            out.append(numpy.array(v) if numpy.ndim(v) else v)
    o = copy.deepcopy(o)
    if kind.endswith("Model") and kind != "DiversityModel":
        if kind == "GaussianMixtureModel":
            numpy.random.seed(12345)
        if not any(numpy.ndim(v) for v in out) and not numpy.ndim(getattr(o, "shape", ())) or not o.shape:
            call(o.fit, numpy.repeat(numpy.array(THINGS["features"]), 5, axis=0) + numpy.arange(60).reshape(30, 2) % 7 * 0.05, numpy.repeat(THINGS["labels"], 5))
        out.append(o.predict(numpy.array(THINGS["query"])))
    elif kind == "DiversityModel":
        out.append(o.fit(numpy.array(THINGS["rows"])))
    elif kind == "WaveletTransform":
        out.append(o.transform(numpy.array(THINGS["deep"] * 2), 1))
    elif kind == "WindowFilter":
        out.append(o.filter(numpy.ones(len(o.b))))
    else:
        out.append(o.filter(numpy.array(SIGNAL) / 8.0))
    return tuple(numpy.asarray(v) if not isinstance(v, tuple) else v for v in out)


def unfold(text):
    """What an encoded text holds: it may hold the time of its compression too."""

    from diamondback import Serial

    raw = call(lambda: __import__("base64").b85decode(text))
    return bool(raw.value and raw.value[:2] == b"\x1f\x8b") if not raw.error else None, [repr(call(Serial.decode, text, e)) for e in ("utf-8", "latin-1")]


def plain(v):
    """Numbers that are not finite are told apart no further."""

    if isinstance(v, tuple):
        return tuple(plain(u) for u in v)
    a = numpy.asarray(v)
    if a.dtype.kind in "fc" and not numpy.isfinite(a).all():
        return numpy.where(numpy.isfinite(a), a, 98765.0)
    return v


def outcome(prepare, pos, kw):
    """Makes a call; returns what came of it, and whether the instance it was made on changed."""

    fn, o = prepare()
    before = pickle.dumps(vars(o)) if o is not None else b""
    numpy.random.seed(12345)

    def act():
        r = fn(*pos, **kw)
        if isinstance(r, str) and fn.__name__ == "encode":
            return repr(unfold(r))
        if isinstance(r, (str, bytes)) or (o is None and not isinstance(r, (tuple, numpy.ndarray)) and type(r).__module__.partition(".")[0] != "diamondback"):
            return repr(r)
        parts = [r] if r is not None else []
        if o is None and type(r).__module__.partition(".")[0] == "diamondback":
            return plain(look(r))
        return plain(tuple(parts) + (look(o) if o is not None else ()))

    y = call(act)
    return y, (pickle.dumps(vars(o)) if o is not None else b"") != before


def session(job):
    c, name, rows, seed = job
    rng = random.Random(seed)
    prepare = host(c, name)
    names, ev, note = Names(), [], []

    def do(pos, kw):
        y, changed = outcome(prepare, [present(c, t, rng) for t in pos], {n: present(c, t, rng) for n, t in kw})
        n = names.of(y)
        ev.append(dict(pos=list(pos), kw=[list(u) for u in kw], out=n, changed=bool(changed and y.error)))
        note.append(repr(y)[:60])

    for row in rows:
        given = {n: rng.choice(POOLS[c][n][:2] if rng.random() < 0.6 else POOLS[c][n]) for n in row["names"]}
        pos = [given[n] if i < len(row["names"]) else "g" for i, n in enumerate((row["names"] + ["unknown"])[: len(row["f"]["pos"])])]
        kw = [(n, given.get(n, "g")) for n, _ in row["f"]["kw"]]
        rng.shuffle(kw)
        # A name passed twice is by position and by name, which the language allows a caller to write.
        do(pos, kw)
        if row["ok"]:
            full = [(n, given[n] if m == "g" else m) for n, m in zip(row["names"], row["m"])]
            rng.shuffle(full)
            do([], full)
    return dict(cfg=dict(c=c), ev=ev, note=note)


def run(ctx):
    rng = ctx.rng
    rows = ctx.explore("SignatureMC", {}, ("Equivalent", "Bound", "IllForms", "Distinct"))
    by = {}
    for r in rows:
        by.setdefault(r["c"], []).append(r)
    jobs = []
    for c in sorted(by):
        rows = by[c]
        for _ in range(ctx.pick(1, 8) if len(rows) > 60 else ctx.pick(4, 30)):
            picks = rows if len(rows) <= 60 or ctx.thorough else rng.sample(rows, min(len(rows), 320))
            picks = [r for r in picks if r["ok"] or len(rows) <= 60 or rng.random() < 0.1]
            rng.shuffle(picks)
            for name in hosts(c):
                for k in range(0, len(picks), 12):
                    jobs.append((c, name, picks[k : k + 12], rng.random()))
    rng.shuffle(jobs)
    with get_context("fork").Pool(8) as pool:
        traces = pool.map(session, jobs, chunksize=4)
    ctx.count("calls made", sum(len(t["ev"]) for t in traces))
    ctx.count("calls that succeeded", sum(1 for t in traces for e in t["ev"] if e["out"]))
    ctx.sample(traces[0])
    ctx.judge("SignatureTrace", traces, dict(InitOf="<- XInit", StepOf="<- XStep"))
