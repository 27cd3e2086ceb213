"""C05 Frequency response, group delay, roots."""

from common import *


def make(rng, kind, b, a, d, gain):
    """A filter with forward coefficients b (times gain) and recursive coefficients a over d."""

    from diamondback import FirFilter, IirFilter

    pb = signal_of(b, gain, rng.choice(DOUBLE_FORMS))
    if kind == "fir":
        return call(FirFilter, b=pb)
    return call(IirFilter, a=signal_of(a, 1.0 / d, rng.choice(DOUBLE_FORMS)), b=pb)


def state(o):
    return tuple(numpy.array(getattr(o, n)) for n in ("a", "b", "s") if hasattr(o, n))


def use(rng, o, real):
    """Some history, so that the evaluations happen mid stream."""

    if rng.random() < 0.6:
        call(o.filter, signal_of(gaussians(rng, rng.randint(1, 6), 5, real), 1.0))


def evaluate(ctx, o, what, detail, **kw):
    before = state(o)
    # Evaluations before this one, of the same or other lengths and counts, have no influence; nor has what a caller does with their results.
    while ctx.rng.random() < 0.4:
        other = dict(kw) if ctx.rng.random() < 0.4 else dict(length=ctx.rng.choice((1, 2, 5, 8, 16, kw.get("length", 3))), count=ctx.rng.choice((1, 1, 2, 3)))
        name = ctx.rng.choice((what, what, "response", "delay", "roots"))
        r = call(getattr(o, name), **(other if name != "roots" else dict(count=other.get("count", 1))))
        ctx.count("other evaluations")
        if not r.error and ctx.rng.random() < 0.5:
            for v in r.value:
                if isinstance(v, numpy.ndarray) and v.flags.writeable:
                    v[:] = 7.0
    r = call(getattr(o, what), **kw)
    ctx.expect(same(before, state(o)), "evaluating changes the filter", lambda: dict(detail=detail, what=what))
    ctx.count(f"{what} compared")
    return r


def frequencies(n):
    return [2.0 * (i - n // 2) / n for i in range(n)]


def good_axes(r, n):
    return not r.error and isinstance(r.value, tuple) and len(r.value) == 2 and numpy.shape(r.value[0]) == (n,) and close_all(r.value[1], frequencies(n), 1e-12, 1.0)


def response(ctx, o, e, y, count, gain, clause):
    n = e["n"]
    r = evaluate(ctx, o, "response", e, length=n, count=count)
    v = [cyc(u, n) * gain / cyc(w, n) * e["d"] if abs(cyc(w, n)) > 1e-9 else None for u, w in zip(y["v"], y["dv"])]
    ok = good_axes(r, n)
    for k, x in enumerate(v):
        if ok and x is not None:
            big = max(abs(x), sum(abs(complex(*c)) for c in e["b"]) * gain / abs(cyc(y["dv"][k], n)) * e["d"])
            ok = close(r.value[0][k], x**count, 1e-9, big**count)
    ctx.expect(ok, clause, lambda: dict(event=e, count=count, gain=gain, observed=repr(r), expected=str(v)))


def delay(ctx, o, e, y, count, clause):
    n, kind = e["n"], e["filter"]
    r = evaluate(ctx, o, "delay", e, length=n, count=count)
    ok = good_axes(r, n)
    expected = []
    size = sum(abs(complex(*c)) for c in e["b"])
    order = len(e["b"]) - 1
    symmetric = kind == "fir" and all(c[1] == 0 for c in e["b"]) and e["b"] == e["b"][::-1]
    for k in range(n):
        v, dv = cyc(y["v"][k], n), cyc(y["dv"][k], n)
        if abs(v) < 1e-3 * size or abs(dv) < 1e-3 * e["d"]:
            expected.append(None)  # at a zero or a pole the delay is not defined
        else:
            expected.append(((cyc(y["s"][k], n) / v).real - (cyc(y["ds"][k], n) / dv).real) * count)
    for k in range(n):
        edge = (kind == "fir" and n > 2 and k == 0) or (kind == "iir" and n > 6 and (k < 6 or k >= n - 6))
        x = expected[k]
        if edge and symmetric and None not in expected[1:3]:
            x = order / 2.0 * count
        elif edge:
            continue
        if ok and x is not None:
            if symmetric:
                ok = abs(x - order / 2.0 * count) < 1e-6
            ok = ok and close(r.value[0][k], x, 1e-6, max(1.0, order * count))
    ctx.expect(ok, clause, lambda: dict(event=e, count=count, observed=repr(r), expected=str(expected)))


def run(ctx):
    rng = ctx.rng
    inv = ("SymmetricDelay", "ZeroFrequency", "Cascade", "Conjugate")
    rows = ctx.explore("ResponseMC", dict(Lengths="{1, 2, 3}", Values="<- MCValues", Points=ctx.pick("{1, 4, 7}", "{1, 2, 4, 7, 8}")), inv, workers=1)
    ctx.sample({k: rows[len(rows) // 2][k] for k in ("b", "a", "n")})
    rng.shuffle(rows)
    for row in rows[: ctx.pick(1200, 6000)]:
        kind, gain, count = rng.choice(("fir", "iir")), 2.0 ** rng.choice((0, 0, -4, 9)), rng.choice((1, 1, 2, 3))
        if kind == "fir":
            row = {**row, "dv": [[[1, 0]] + [[0, 0]] * (row["n"] - 1)] * row["n"], "ds": [[[0, 0]] * row["n"]] * row["n"], "d": 1}
        row["filter"] = kind
        o = make(rng, kind, row["b"], row["a"], row["d"], gain)
        if ctx.expect(not o.error, "construction raised an error", lambda: dict(event=row, observed=repr(o))):
            use(rng, o.value, False)
            response(ctx, o.value, row, row, count, gain, "replayed response differs")
            delay(ctx, o.value, row, row, count, "replayed delay differs")
            ctx.validated += 1
    sessions = [dict(cfg=dict(), ev=[event(rng)]) for _ in range(ctx.pick(400, 5000))]
    for s, ys in zip(sessions, ctx.oracle("ResponseOracle", sessions, workers=1)):
        e, y = s["ev"][0], ys[0]
        if e["kind"] == "roots":
            roots(ctx, rng, e, y)
            continue
        gain, count = 2.0 ** rng.choice((0, 0, -4, 9)), rng.choice((1, 1, 2, 3, 5))
        o = make(rng, e["filter"], e["b"], e["a"], e["d"], gain)
        if ctx.expect(not o.error, "construction raised an error", lambda: dict(event=e, observed=repr(o))):
            use(rng, o.value, all(c[1] == 0 for c in e["b"] + e["a"]))
            response(ctx, o.value, e, y, count, gain, "response differs from the transfer function")
            if e["kind"] == "delay":
                delay(ctx, o.value, e, y, count, "delay differs from the phase slope")
    ctx.sample(sessions[0])
    for _ in range(ctx.pick(60, 600)):
        ordered(ctx, rng)
    sessions = [dict(cfg=dict(), ev=[long_event(rng)]) for _ in range(ctx.pick(80, 800))]
    for s, ys in zip(sessions, ctx.oracle("ResponseOracle", sessions, workers=1, label="long")):
        long(ctx, rng, s["ev"][0], ys[0])
    designed(ctx)
    rejections(ctx)
    ctx.assumptions.append("delay is compared where |H| is not small, and away from the band edges, which the code smooths (one frequency for FIR, six at each edge for IIR)")


def long_event(rng):
    """A longer filter, or a response at many frequencies, compared at some of them."""

    e = event(rng, rng.choice(("response", "delay")), rng.choice((2, 3, 5, 8, 12, 20, 33, 64, 65, 100, 129)))
    e["n"] = rng.choice((25, 32, 50, 64, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 512, 513, 1000, 1024, 2048, 4096, 8191, 8192))
    n = e["n"]
    e["at"] = sorted({1, 2, n, n // 2 + 1, n // 2, 7, n - 6} | set(rng.sample(range(1, n + 1), 10)))
    return e


def long(ctx, rng, e, y):
    gain, count = 2.0 ** rng.choice((0, 0, -4, 9)), rng.choice((1, 1, 2, 3))
    o = make(rng, e["filter"], e["b"], e["a"], e["d"], gain)
    if not ctx.expect(not o.error, "construction raised an error", lambda: dict(event=e, observed=repr(o))):
        return
    use(rng, o.value, all(c[1] == 0 for c in e["b"] + e["a"]))
    n, kind, order = e["n"], e["filter"], len(e["b"]) - 1
    size = sum(abs(complex(*c)) for c in e["b"])
    r, t = evaluate(ctx, o.value, "response", e, length=n, count=count), evaluate(ctx, o.value, "delay", e, length=n, count=count)
    ok = good_axes(r, n) and good_axes(t, n)
    for i, k in enumerate(e["at"]):
        v, dv, s, ds = (cys(y[name][i], n) for name in ("v", "dv", "s", "ds"))
        if not ok or abs(dv) < 1e-3 * e["d"]:
            continue
        x = v * gain / dv * e["d"]
        big = max(abs(x), size * gain / abs(dv) * e["d"])
        ok = close(r.value[0][k - 1], x**count, 1e-9, big**count)
        edge = k < 8 or k > n - 7
        if ok and abs(v) > 1e-2 * size and not edge:
            x = ((s / v).real - (ds / dv).real) * count
            ok = close(t.value[0][k - 1], x, 1e-6, max(1.0, order * count))
    ctx.expect(ok, "long response or delay differs from the transfer function", lambda: dict(event=e, count=count, gain=gain, response=repr(r), delay=repr(t)))


def ordered(ctx, rng):
    """Roots of long filters, whose magnitudes are close to each other, are in order of magnitude."""

    from diamondback import FirFilter, IirFilter

    n = rng.choice((3, 9, 20, 33, 60))
    b = numpy.array([complex(rng.randint(-9, 9), rng.choice((0, 0, rng.randint(-9, 9)))) for _ in range(n)])
    b[0], b[-1] = 5.0, 3.0
    b = b.real if not b.imag.any() else b
    count = rng.choice((1, 1, 2, 3))
    a = numpy.concatenate(([0.0], [rng.randint(-9, 9) / 16.0 for _ in range(n - 2)], [0.5]))
    for o in (call(FirFilter, b=b), call(IirFilter, a=a, b=b)):
        r = call(o.value.roots, count) if not o.error else o
        good = not r.error and numpy.shape(r.value[0]) == numpy.shape(r.value[1]) == ((n - 1) * count,)
        good = good and all((numpy.diff(abs(numpy.asarray(v))) >= -1e-12).all() for v in r.value)
        ctx.expect(good, "roots are those of the polynomials, repeated by count, ordered by magnitude", lambda: dict(a=a.tolist(), b=b.tolist(), count=count, observed=repr(r)))
    ctx.count("orders of roots compared", 2)


def roots(ctx, rng, e, y):
    from diamondback import FirFilter, IirFilter

    gain = 2.0 ** rng.choice((0, 0, -3, 4)) * rng.choice((1, -1, 3))
    b = numpy.array([complex(*c) for c in y["b"]]) * gain
    b = b.real if not b.imag.any() else b
    zeros, poles = [complex(*z) for z in y["zeros"]], [complex(*p) / e["d"] for p in y["poles"]]
    lead, trail = e["lead"], e["trail"]
    b = numpy.concatenate((numpy.zeros(lead), b, numpy.zeros(trail)))
    zeros = zeros + [0j] * trail * e["count"]
    if e["filter"] == "fir":
        poles = [0j] * ((len(b) - 1) * e["count"])
        o = call(FirFilter, b=b)
    else:
        a = -numpy.array([complex(*c) / e["d"] ** k for k, c in enumerate(y["a"])])
        a[0] = 0.0
        a = a.real if not a.imag.any() else a
        if len(a) < len(b):  # padding adds poles at the origin
            poles = poles + [0j] * (len(b) - len(a)) * e["count"]
        if len(b) < len(a):
            zeros = zeros + [0j] * (len(a) - len(b)) * e["count"]
        o = call(IirFilter, a=a, b=b)
    if not ctx.expect(not o.error, "construction raised an error", lambda: dict(event=e, observed=repr(o))):
        return
    use(rng, o.value, not numpy.iscomplexobj(b))
    r = evaluate(ctx, o.value, "roots", e, count=e["count"])
    good = not r.error and isinstance(r.value, tuple) and len(r.value) == 2
    for observed, expected in zip(r.value if good else (), (poles, zeros)):
        left = list(expected)
        good = good and numpy.shape(observed) == (len(left),)
        if good:
            mags = [abs(v) for v in observed]
            good = all(u <= v + 1e-12 for u, v in zip(mags, mags[1:]))
            for v in observed:
                k = min(range(len(left)), key=lambda i: abs(left[i] - v))
                good = good and abs(left.pop(k) - v) < 2e-4
    ctx.expect(good, "roots are those of the polynomials, repeated by count, ordered by magnitude", lambda: dict(event=e, b=b.tolist(), observed=repr(r), poles=str(poles), zeros=str(zeros)))


def designed(ctx):
    """Designed filters: response, delay and roots agree with the public coefficients (large lengths, default arguments)."""

    from diamondback import FirFilter, IirFilter

    rng = ctx.rng
    for _ in range(ctx.pick(6, 40)):
        fir = rng.random() < 0.5
        style = rng.choice(("Hann", "Kaiser", "Hamming", "Blackman") if fir else ("Bessel", "Butterworth", "Chebyshev"))
        order = rng.choice((2, 5, 8, 20)) if fir else rng.randint(1, 6)
        o = call(FirFilter if fir else IirFilter, style=style, frequency=rng.choice((0.1, 0.3)), order=order, count=1)
        if not ctx.expect(not o.error, "construction raised an error", lambda: dict(style=style, order=order, observed=repr(o))):
            continue
        w = o.value
        b, a = numpy.asarray(w.b), numpy.asarray(w.a) if not fir else numpy.zeros(1)
        for kw, n, count in ((dict(), 8192, 1), (dict(length=501), 501, 1), (dict(length=64, count=3), 64, 3)):
            f = numpy.array(frequencies(n))
            z = numpy.exp(-1j * numpy.pi * f)
            h = (numpy.polyval(b[::-1], z) / (1.0 - numpy.polyval(numpy.concatenate(([0.0], a[1:]))[::-1], z))) ** count
            r = evaluate(ctx, w, "response", (style, order), **kw)
            ctx.expect(good_axes(r, n) and bool((numpy.abs(r.value[0] - h) <= 1e-7 * max(1.0, numpy.abs(h).max())).all()), "response differs from the transfer function", lambda: dict(style=style, order=order, kw=kw))
            d = evaluate(ctx, w, "delay", (style, order), **kw)
            ok = good_axes(d, n)
            if ok and fir:
                keep = numpy.abs(h) > 1e-4
                keep[0] = False
                ok = bool((numpy.abs(d.value[0][keep] - order / 2.0 * count) < 1e-6 * order * count).all())
            ctx.expect(ok, "delay of a symmetric filter is half its order", lambda: dict(style=style, order=order, kw=kw, observed=repr(d)))
        p = evaluate(ctx, w, "roots", (style, order))
        if ctx.expect(not p.error, "roots raised an error", lambda: dict(style=style, order=order, observed=repr(p))):
            poly = numpy.atleast_1d(numpy.poly(p.value[1])) * b[numpy.nonzero(numpy.abs(b) > 0)[0][0]]
            ctx.expect(len(poly) == len(b) - numpy.nonzero(numpy.abs(b) > 0)[0][0] and bool((numpy.abs(poly - b[-len(poly):]) <= 1e-6 * numpy.abs(b).max() + 1e-9).all()), "zeros rebuild the forward polynomial",
                       lambda: dict(style=style, order=order, observed=repr(p)))
            if not fir:
                den = numpy.concatenate(([1.0], -a[1:]))
                ctx.expect(bool((numpy.abs(numpy.poly(p.value[0]) - den) <= 1e-6 * numpy.abs(den).max()).all()), "poles rebuild the recursive polynomial", lambda: dict(style=style, order=order, observed=repr(p)))


def rejections(ctx):
    from diamondback import FirFilter, IirFilter

    for o in (FirFilter(b=[1.0, 0.5]), IirFilter(a=[0.0, 0.5], b=[1.0, 0.5])):
        for what in ("response", "delay"):
            for kw in (dict(length=0), dict(length=-4), dict(count=0), dict(count=-1)):
                r = call(getattr(o, what), **{**dict(length=4, count=1), **kw})
                ctx.expect(bool(r.error), "a length or count that is not positive is rejected", lambda: dict(what=what, kw=kw, observed=repr(r)))


def event(rng, kind=None, size=None):
    kind = kind or rng.choice(("response", "delay", "delay", "roots"))
    real = rng.random() < 0.7
    if kind == "roots":
        def some(n):
            out = []
            while len(out) < n:
                z = [rng.randint(-4, 4), rng.choice((0, 0, 1, 2, -3))]
                if z in out or (z == [0, 0]):
                    continue
                if real and z[1]:
                    if n - len(out) > 1:
                        out += [z, [z[0], -z[1]]]
                else:
                    out.append(z)
            return out

        return dict(kind=kind, filter=rng.choice(("fir", "iir")), zeros=some(rng.randint(1, 4)), poles=some(rng.randint(1, 4)), count=rng.choice((1, 1, 2, 3)),
                    d=8, lead=rng.choice((0, 0, 0, 1, 2)), trail=rng.choice((0, 0, 0, 1, 2)))
    filt = rng.choice(("fir", "iir"))
    n = min(size, 12 if filt == "iir" else size) if size else rng.randint(1, 8)
    b = gaussians(rng, n, 6, real, rng.choice(("noise", "noise", "sparse", "alternate", "constant")))
    if rng.random() < 0.4:  # symmetric
        b = [b[min(i, n - 1 - i)] for i in range(n)]
    if all(c == [0, 0] for c in b):
        b[rng.randrange(n)] = [2, 0]
    a = [[0, 0]] + (gaussians(rng, n - 1, 6, real, "noise") if filt == "iir" else [[0, 0]] * (n - 1))
    return dict(kind=kind, filter=filt, b=b, a=a, d=(32 if n <= 8 else 256) if filt == "iir" else 1, n=rng.choice((1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 20, 21, 24)))
