"""C35 Ranges of arguments, and the values attributes hold."""

import math

from common import *

INF = math.inf
WAVELETS = dict(Haar=(1,), Daubechies=tuple(range(3, 20, 2)), Coiflet=(5, 11, 17, 23, 29), Symmlet=tuple(range(7, 20, 2)))
DERIVATIVES = {1: (1, 2, 4), 2: (2, 4, 6, 8), 3: (4, 6, 8)}
# The ends of ranges, and whether values are whole.  Designs are given frequencies well inside their range.
ENDS = dict(goertzel=dict(frequency=(-1.0, 1.0)), bandpass=dict(frequency=(-1.0, 1.0), rate=(0.0, 1.0)), frequency=dict(frequency=(-1.0, 1.0), rate=(0.0, 1.0)),
            exponential=dict(phase=(-1.0, 1.0)), polynomial=dict(rate=(0.0, INF), order=(1, 4)), polyphase=dict(rate=(0.0, 256.0)), rank=dict(index=(0, 5)),
            pid=dict(limit=(0.0, INF)), fir=dict(frequency=(0.0, 1.0), order=(1, 12), count=(1, 3)), iir=dict(frequency=(0.0, 1.0), order=(1, 5), count=(1, 3)),
            window=dict(order=(0, 20)), gaussian=dict(regularize=(0.0, INF)), mixture=dict(order=(1, 9), index=(1, 50), regularize=(0.0, INF)),
            diversity=dict(order=(0, 9)), analysis=dict(count=(1, 3)), conversion=dict(frequency=(0.0, INF)),
            **{k: dict(length=(1, 50), count=(1, 3)) for k in ("firresponse", "firdelay", "iirresponse", "iirdelay")})
STYLES = dict(fir=("Blackman", "Hamming", "Hann", "Kaiser"), iir=("Bessel", "Butterworth", "Chebyshev"), window=("Blackman", "Hamming", "Hann", "Kaiser"),
              diversity=("Chebyshev", "Euclidean", "Geometric", "Manhattan"), wavelet=tuple(WAVELETS))


def number(rng, lo, hi, kind, name, c):
    """A number of a class, in a form a caller may use."""

    whole = isinstance(lo, int)
    if whole:
        v = dict(below=lambda: lo - rng.choice((1, 1, 2, 7, 100)), low=lambda: lo, high=lambda: hi, above=lambda: hi + rng.choice((1, 1, 2, 7, 100)),
                 inside=lambda: rng.randint(lo + 1, hi - 1))[c]()
        return rng.choice((int, int, numpy.int64, numpy.int32))(v)
    near = 0.03 if kind in ("fir", "iir") else 0.0
    top = hi if hi < INF else 5.0
    if c == "inside":
        v = rng.uniform(lo + near, top - near)
        if not near and rng.random() < 0.4:
            v = rng.choice((math.nextafter(lo, INF) if kind != "conversion" else 1e-3, lo + 2.0**-30 if kind != "conversion" else 0.01, math.nextafter(hi, -INF) if hi < INF else 1e6, (lo + top) / 2.0))
    elif c in ("low", "high"):
        v = lo if c == "low" else hi
        return rng.choice((float, numpy.float64, int, lambda z: -0.0 if z == 0.0 else z))(v)
    elif c == "below":
        v = rng.choice((math.nextafter(lo, -INF), lo - 1e-9, lo - 0.25, lo - 3.0, -1e300, -INF))
    else:
        v = rng.choice((math.nextafter(hi, INF), hi + 1e-9, hi + 0.25, hi + 3.0, 1e300, INF))
    return rng.choice((float, float, numpy.float64))(v)


def cased(rng, name):
    return rng.choice((name, name, name.lower(), name.upper()))


def value(rng, kind, name, c, before):
    """A value of a class; before holds those of the parameters before it."""

    if name == "style":
        names = STYLES[kind]
        if c == "inside":
            return cased(rng, rng.choice(names))
        return rng.choice([n + " " for n in names] + [n[:-1] for n in names]) if c == "high" else rng.choice(("", "Unknown", "None"))
    if kind in ("wavelet", "derivative", "integral") and name in ("order", "derivative"):
        if kind == "integral":
            members = (0, 1, 2, 3, 4)
        elif name == "derivative":
            members = tuple(DERIVATIVES)
        else:
            members = WAVELETS.get(str(before[0]).title(), (1,)) if kind == "wavelet" else DERIVATIVES.get(before[0], (1,))
        if c == "inside":
            return rng.choice(members)
        others = [v for v in range(0 if c == "high" else -40, 41 if c == "above" else max(members) + 2) if v not in members]
        return rng.choice(others)
    if kind in ("fir", "iir") and name == "order" and c == "low" and before[0].title() in ("Hann", "Blackman"):
        # A Hann or Blackman window of order one is zero everywhere.
        return 2
    return number(rng, *ENDS[kind][name], kind, name, c)


def make(rng, kind, names, values):
    import diamondback as d

    classes = dict(bandpass="ComplexBandpassFilter", frequency="ComplexFrequencyFilter", exponential="ComplexExponentialFilter", polynomial="PolynomialRateFilter",
                   polyphase="PolyphaseRateFilter", fir="FirFilter", iir="IirFilter", window="WindowFilter", derivative="DerivativeFilter", integral="IntegralFilter",
                   wavelet="WaveletTransform", gaussian="GaussianModel", mixture="GaussianMixtureModel", diversity="DiversityModel")
    kw = dict(zip(names, values))
    if kind in classes:
        if kind == "window":
            kw["normal"] = rng.random() < 0.5 and not (kw["order"] == 1)
        return call(getattr(d, classes[kind]), **kw)
    if kind == "goertzel":
        return call(d.GoertzelFilter, [1.0, 1.0, 1.0], **kw)
    if kind == "rank":
        return call(d.RankFilter, order=5, **kw)
    if kind == "pid":
        return call(d.PidFilter, [1.0, 0.5, 0.25])
    if kind in ("firresponse", "firdelay"):
        o = call(d.FirFilter, b=[0.5, 0.3, 0.2])
    elif kind in ("iirresponse", "iirdelay"):
        o = call(d.IirFilter, a=[0.0, 0.5, -0.25], b=[0.5, 0.25])
    elif kind == "analysis":
        o = call(d.WaveletTransform, "Haar", 1)
        return o if o.error else call(o.value.transform, numpy.arange(16.0), **kw)
    else:
        return call(d.ZTransform.transform, [1.0, 2.0, 1.5], [1.0], **kw)
    return o if o.error else call(getattr(o.value, "response" if kind.endswith("response") else "delay"), **kw)


READ = dict(goertzel=("frequency",), bandpass=("frequency", "rate"), frequency=("frequency", "rate"), exponential=("phase",), polynomial=("rate", "order"), polyphase=("rate",),
            rank=("index",), pid=("limit",), gaussian=("regularize",), mixture=("order", "index", "regularize"))


def replay(ctx, row, rng):
    kind, names, h = row["kind"], row["names"], row["h"]
    given, o, log = {}, None, []
    for n, e in enumerate(h, 1):
        if e["op"] == "make":
            values = []
            for name, c in zip(names, e["c"]):
                values.append(value(rng, kind, name, c, values) if c else None)
            given.update({(1, name): v for name, v in zip(names, values)})
            pairs = [(name, v) for name, v in zip(names, values) if v is not None]
            o = r = make(rng, kind, [p[0] for p in pairs], [p[1] for p in pairs])
            log.append(["make", dict((a, repr(b)) for a, b in pairs)])
        else:
            name = names[e["i"] - 1]
            given[(n, name)] = v = value(rng, kind, name, e["c"][0], [])
            r = call(setattr, o.value, name, v)
            log.append([name, repr(v)])
        ctx.count("values presented")
        if not ctx.expect(bool(r.error) != e["ok"], "a value within its range was rejected" if e["ok"] else "a value beyond its range was accepted",
                          lambda: dict(kind=kind, history=log, observed=repr(r)[:200], classes=e["c"])):
            return
        if r.error and n == 1:
            return
        for name, at in zip(names, e["held"]):
            if name in READ.get(kind, ()):
                now = call(getattr, o.value, name)
                want = given[(at, name)] if at else INF
                if not ctx.expect(not now.error and now.value == want, "an attribute holds the last value that was accepted",
                                  lambda: dict(kind=kind, history=log, attribute=name, observed=repr(now), expected=repr(want))):
                    return
                ctx.count("attributes read")


def run(ctx):
    rng = ctx.rng
    rows = ctx.explore("DomainMC", dict(Depth=ctx.pick(2, 3)), invariants=("Held",), properties=("Changes",), spec="Spec")
    by = {}
    for row in rows:
        by.setdefault(row["kind"], []).append(row)
    for kind in sorted(by):
        for _ in range(ctx.pick(1, 3) if len(by[kind]) > 100 else ctx.pick(20, 150)):
            for row in by[kind] if len(by[kind]) <= ctx.pick(900, 20000) else rng.sample(by[kind], ctx.pick(900, 20000)):
                replay(ctx, row, rng)
                ctx.validated += 1
        ctx.count("kinds")
    ctx.sample(rows[len(rows) // 2])
    ctx.assumptions.append("not-a-number is excluded: it is neither within nor beyond a range")
