"""C36 Element types of arrays."""

from common import *

# Types of other byte orders or layouts, which hold what the type they are named after holds.
ALIKE = dict(int16=(">i2", "<i2"), int32=(">i4", "intc"), int64=(">i8", "longlong"), uint16=(">u2",), uint32=(">u4",), uint64=(">u8",))
SMALL = (0, 1, 2, 3, 5, 1, 0, 4)


def number(v):
    return v["sg"] * (2 ** v["e"] + v["o"])


def signal(rng, s, lo, hi, n):
    """n numbers a type holds, among them those of a sequence, one after the other."""

    x = [max(lo, min(hi, rng.choice(SMALL) * rng.choice((1, -1)))) for _ in range(n)]
    for _ in range(rng.choice((1, 1, 2))):
        at = rng.randrange(n - len(s) + 1)
        x[at : at + len(s)] = s
    return x


def matrix(x, cols):
    return x[: len(x) // cols * cols].reshape(-1, cols)


def fitted(model, x, labels, query):
    numpy.random.seed(12345)
    model.fit(x, labels)
    return model.predict(query)


def wavelet(d, x, y):
    o = d.WaveletTransform("Daubechies", 3)
    z = o.transform(matrix(x, 1)[:8, 0], 2)
    return z, o.transform(matrix(x, 4)[:2], 1), o.transform(matrix(y, 1)[:8, 0], 2, True)


def diversity(d, x, y, style):
    o = d.DiversityModel(style, 3)
    u = o.fit(matrix(x, 2))
    return numpy.array([v for v in (u, o.fit(matrix(y, 2)))], float), o.s


def labelled(x):
    return numpy.arange(len(x)) % 2


# What each part of the package makes of two arrays of numbers.  Some take one as coefficients, the other as a signal.
def uses(d):
    u = dict(
        fir=lambda x, y: d.FirFilter(b=[0.5, -0.25, 1.0]).filter(x),
        fircoefficients=lambda x, y: (lambda o: (o.filter(y), o.response(8)[0], o.b))(d.FirFilter(b=x[:5])),
        firstate=lambda x, y: d.FirFilter(b=[0.5, -0.25, 1.0], s=x[:3]).filter(y),
        iir=lambda x, y: d.IirFilter(a=[0.0, 0.5, -0.25], b=[1.0, 0.25]).filter(x),
        iircoefficients=lambda x, y: d.IirFilter(a=[0.0, 0.5], b=x[:4]).filter(y),
        derivative=lambda x, y: d.DerivativeFilter(2, 4).filter(x),
        integral=lambda x, y: d.IntegralFilter(3).filter(x),
        rank=lambda x, y: d.RankFilter(2, 4).filter(x),
        pid=lambda x, y: (lambda o: (o.filter(x), setattr(o, "limit", 3), o.filter(y)))(d.PidFilter([1.0, 0.5, 0.25]))[::2],
        pidgains=lambda x, y: d.PidFilter(x[:3]).filter(y),
        goertzel=lambda x, y: d.GoertzelFilter([1.0, 2.0, 1.0], 0.25).filter(x),
        goertzelwindow=lambda x, y: d.GoertzelFilter(x[:4], 0.3).filter(y),
        window=lambda x, y: d.WindowFilter("Hamming", 8).filter(x[:9]),
        polynomial1=lambda x, y: d.PolynomialRateFilter(1.5, 1).filter(x),
        polynomial2=lambda x, y: d.PolynomialRateFilter(0.75, 2).filter(x),
        polynomial3=lambda x, y: d.PolynomialRateFilter(2.0, 3).filter(x),
        polyphase=lambda x, y: d.PolyphaseRateFilter(0.75).filter(x),
        exponential=lambda x, y: d.ComplexExponentialFilter(0.25).filter((x > 0).astype(x.dtype)),
        exponentialrange=lambda x, y: d.ComplexExponentialFilter(0.5).filter(x),
        exponentialextreme=lambda x, y: d.ComplexExponentialFilter(-0.5).filter(x[[int(numpy.argmax(abs(x.astype(float))))]]),
        bandpass=lambda x, y: d.ComplexBandpassFilter(0.1, 0.05).filter(numpy.minimum(x, 1)),
        frequency=lambda x, y: d.ComplexFrequencyFilter(0.1, 0.05).filter(x),
        fourier=lambda x, y: d.FourierTransform.transform(x, numpy.ones(len(x))),
        fourierwindow=lambda x, y: d.FourierTransform.transform(x[:8], numpy.where(y[:8] == 0, y.dtype.type(1), y[:8])),
        psd=lambda x, y: d.PsdTransform.transform(x, y[:4] | y.dtype.type(1) if y.dtype.kind in "iub" else (y[:4].astype(int) | 1).astype(float), 2, True),
        complex1=lambda x, y: d.ComplexTransform.transform(x.reshape(1, -1)),
        complex3=lambda x, y: d.ComplexTransform.transform(matrix(x, 4)[:3]),
        z=lambda x, y: d.ZTransform.transform([1.0, 2.0, 1.5], y[:3] | y.dtype.type(1) if y.dtype.kind in "iub" else (y[:3].astype(int) | 1).astype(float), 10.0),
        wavelet=lambda x, y: wavelet(d, x, y),
        gaussian=lambda x, y: fitted(d.GaussianModel(), matrix(x, 2), labelled(matrix(x, 2)), matrix(y, 2)),
        mixture=lambda x, y: fitted(d.GaussianMixtureModel(1, 5), matrix(x, 2), labelled(matrix(x, 2)), matrix(y, 2)),
    )
    for style in ("Chebyshev", "Euclidean", "Geometric", "Manhattan"):
        u["diversity" + style.lower()] = lambda x, y, style=style: diversity(d, x, y, style)
    return u


def flat(v):
    return [w for u in v for w in flat(u)] if isinstance(v, (tuple, list)) else [numpy.asarray(v)]


def agrees(a, b):
    """Whether two outcomes are the same, within rounding of the largest number of either."""

    a, b = flat(a), flat(b)
    if len(a) != len(b):
        return False
    for p, q in zip(a, b):
        if p.shape != q.shape:
            return False
        p, q = (v.astype(complex) for v in (p, q))
        if (numpy.isfinite(p) != numpy.isfinite(q)).any():
            return False
        p, q = (numpy.where(numpy.isfinite(v), v, 0.0) for v in (p, q))
        if len(p) and numpy.abs(p - q).max(initial=0.0) > 1e-9 * max(numpy.abs(p).max(initial=0.0), numpy.abs(q).max(initial=0.0), 1e-6):
            return False
    return True


def limits(name):
    if name == "bool":
        return 0, 1
    i = numpy.iinfo(name)
    return int(i.min), int(i.max)


def run(ctx):
    import diamondback as d

    rng = ctx.rng
    rows = ctx.explore("TypesMC", dict(Exps="<- MCExps", Depth=2), invariants=("Nested", "Signs", "Widest", "Ordered", "DoublesAsSubtracts"), properties=("Grows",), spec="Spec")
    ctx.sample(rows[len(rows) // 2])
    table = uses(d)
    # Sequences that strain the types which hold them, by type and by what strains it.
    cells = {}
    for row in rows:
        for t in row["held"]:
            for kind in list(t["strains"]) or ["none"]:
                cells.setdefault((t["n"], kind), []).append([number(v) for v in row["s"]])
    ctx.count("types and operations that strain them", len(cells))
    for name, use in sorted(table.items()):
        for (t, strain), some in sorted(cells.items()):
            if t == "bool" and name in ("psd", "z", "fourierwindow"):
                continue
            for _ in range(ctx.pick(3, 60) if not name.startswith("mixture") else ctx.pick(1, 4)):
                s = rng.choice(some)
                lo, hi = limits(t)
                x = signal(rng, s, lo, hi, 12)
                y = signal(rng, rng.choice(some) if rng.random() < 0.5 else s, lo, hi, 12)
                form = rng.choice((t,) + ALIKE.get(t, ()))
                a, b = numpy.array(x, form), numpy.array(y, form)
                # Both arrays of the type, or one of them only.
                which = rng.choice(("both", "both", "first", "second"))
                reference = call(use, numpy.array(x, float), numpy.array(y, float))
                typed = call(use, a if which != "second" else numpy.array(x, float), b if which != "first" else numpy.array(y, float))
                ctx.count("arrays presented")
                if reference.error:
                    ctx.count("rejected: " + name)
                ctx.validated += 1
                ctx.expect(bool(typed.error) == bool(reference.error) and (bool(typed.error) or agrees(typed.value, reference.value)),
                           "the element type of an array changes a result",
                           lambda: dict(use=name, type=form, strain=strain, which=which, x=x, y=y, observed=repr(typed)[:300], expected=repr(reference)[:300]))
                ctx.expect(a.tolist() == x and b.tolist() == y and str(a.dtype) == str(numpy.dtype(form)), "an argument was modified", lambda: dict(use=name, type=form, x=x, y=y))
