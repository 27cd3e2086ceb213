"""C22 Wavelet transform."""

from common import *

ORDERS = dict(Coiflet=(5, 11, 17, 23, 29), Daubechies=(3, 5, 7, 9, 11, 13, 15, 17, 19), Haar=(1,), Symmlet=(7, 9, 11, 13, 15, 17, 19))


def limbs(v):
    q = round(float(v) * 2**30)
    return [q >> 20, (q >> 10) & 1023, q & 1023]


def make(rng, style, order):
    from diamondback import WaveletTransform

    s = rng.choice((style, style.lower(), style.upper()))
    return call(WaveletTransform, s, order) if rng.random() < 0.5 else call(WaveletTransform, style=s, order=order)


def present(x, shape, form):
    """A matrix of numbers as a caller might present it."""

    a = numpy.array(x)
    a = a.reshape(-1) if len(shape) == 1 else a
    whole = not numpy.iscomplexobj(a) and bool((a == numpy.round(a)).all()) and bool((numpy.abs(a) < 2.0**50).all())
    if form == "list":
        return a.tolist()
    if form == "rows" and a.ndim == 2:
        return list(a)
    if form in ("int64", "int16") and whole and numpy.abs(a).max() < 2**15:
        return a.astype(form)
    if form == "fortran":
        return numpy.asfortranarray(a)
    if form == "strided":
        b = numpy.zeros((*a.shape[:-1], 2 * a.shape[-1]), a.dtype)
        b[..., ::2] = a
        b[..., 1::2] = 7.5
        return b[..., ::2]
    if form == "readonly":
        a.flags.writeable = False
    return a


FORM = ("array", "array", "list", "rows", "int64", "int16", "fortran", "strided", "readonly")


def matches(y, expected, shape, tol, scale):
    try:
        y = numpy.asarray(y)
    except Exception:
        return False
    want = numpy.array(expected)
    want = want.reshape(-1) if len(shape) == 1 else want
    if y.shape != tuple(shape) or y.dtype.kind not in "fc":
        return False
    return bool((numpy.abs(y - want) <= tol * max(scale, 1e-300)).all())


def run_plan(plan, taps, x):
    """Applies the passes of the specification to a matrix, with observed taps."""

    y = numpy.array(x, complex)
    reads = {n: r for n, r in plan["reads"]}
    for axis, rr, cc in plan["passes"]:
        n = cc if axis == 0 else rr
        m = numpy.zeros((n, n), complex)
        for i, entries in enumerate(reads[n]):
            for e in entries:
                for j, k in enumerate(range(e["k0"], e["k1"] + 1, e["dk"])):
                    m[i, e["src"] - j] += e["gain"] * taps[e["f"]][k]
        if axis == 0:
            y[:rr, :cc] = y[:rr, :cc] @ m.T
        else:
            y[:rr, :cc] = m @ y[:rr, :cc]
    return y


def transform(rng, w, x, count, inverse):
    if rng.random() < 0.3 and not inverse:
        return call(w.transform, x, count)
    return call(w.transform, x, count, inverse) if rng.random() < 0.5 else call(w.transform, x=x, count=count, inverse=inverse)


def run(ctx):
    rng = ctx.rng
    traces, objects = [], {}
    for style, orders in ORDERS.items():
        for order in orders:
            o = make(rng, style, order)
            b = call(lambda: [[list(numpy.asarray(v, float)) for v in pair] for pair in o.value.b]) if not o.error else o
            if not ctx.expect(not b.error, "construction raised an error", dict(style=style, order=order, observed=repr(b))):
                continue
            objects[style, order] = (o.value, b.value)
            bad = any(not abs(v) < 2.0 for pair in b.value for f in pair for v in f)
            if ctx.expect(not bad, "taps are not of energy one half", dict(style=style, order=order, taps=b.value)):
                traces.append(dict(cfg=dict(style=style, order=order), ev=[dict(h=[limbs(v) for v in h], g=[limbs(v) for v in g]) for h, g in b.value]))
    if traces:
        ctx.judge("WaveletTrace", traces, dict(InitOf="<- XInit", StepOf="<- XStep"))
    haar(ctx, objects)
    planned(ctx, objects)
    reconstruct(ctx, objects)
    rejections(ctx, objects)
    for key, (w, taps) in objects.items():
        now = call(lambda: [[list(numpy.asarray(v, float)) for v in pair] for pair in w.b])
        ctx.expect(not now.error and now.value == taps, "transforms changed the filters", dict(style=key))


def haar(ctx, objects):
    rng = ctx.rng
    rows = ctx.explore("WaveletMC", dict(Shapes="<- MCShapes", Values="<- MCValues"), ("Reconstructs", "HaarReturns", "ZeroIsZero"))
    ctx.sample(rows[len(rows) // 2])
    if ("Haar", 1) not in objects:
        return
    w, taps = objects["Haar", 1]
    signs = [[[round(2 * v) for v in f] for f in pair] for pair in taps]
    # The sign of the high pass filter is a convention: the integer taps of the specification follow the observed one.
    rng.shuffle(rows)
    for row in rows[: ctx.pick(2500, 20000)]:
        scale = 2.0 ** rng.choice((0, 0, -5, 30, -60, 100))
        x = numpy.array([[complex(*v) for v in r] for r in row["x"]]) * scale
        shape = row["shape"]
        if not x.imag.any() and rng.random() < 0.8:
            x = x.real
        if shape[0] == 1 and rng.random() < 0.5:
            shape = shape[1:]
        p = present(x, shape, rng.choice(FORM))
        before = numpy.array(p)
        o = transform(rng, w, p, row["count"], False)
        ctx.expect(same(before, p), "the signal passed in was modified", dict(row=row))
        mag = numpy.abs(x).max()
        if signs[0] == [[1, 1], [1, -1]]:
            expected = numpy.array([[complex(*v) for v in r] for r in row["y"]]) * scale / 64
            ctx.expect(not o.error and matches(o.value, expected, shape, 1e-9, mag), "replayed Haar analysis differs", lambda: dict(row=row, scale=scale, shape=shape, observed=repr(o)))
        if not o.error:
            r = transform(rng, w, o.value, row["count"], True)
            ctx.expect(not r.error and matches(r.value, x, shape, 1e-9, mag), "synthesis of an analysis returns the signal", lambda: dict(row=row, scale=scale, observed=repr(r)))
        ctx.validated += 1
    if any(len(f) != 2 for pair in signs for f in pair) or not all(abs(v) == 1 for pair in signs for f in pair for v in f):
        return
    # Exact values for random matrices, analysis and synthesis of anything.
    sessions = []
    for _ in range(ctx.pick(200, 3000)):
        count = rng.choice((1, 1, 2, 3, 4))
        shape = [rng.choice((1, 1, 1, 2, 3)) * 2**count if rng.random() < 0.7 else 1 for _ in range(2)]
        if shape[0] * shape[1] > 300:
            shape[0] = 1
        room = 2 ** (2 * count)
        inverse = rng.random() < 0.5
        real = rng.random() < 0.6
        x = [[[c * room for c in gauss(rng, 50, real)] for _ in range(shape[1])] for _ in range(shape[0])]
        h, g = signs[1 if inverse else 0]
        one = shape[0] == 1 and rng.random() < 0.5
        sessions.append(dict(cfg=dict(), ev=[dict(kind="value", shape=shape[1:] if one else shape, count=count, inverse=inverse, h=h, g=g, x=x)]))
    for s, ys in zip(sessions, ctx.oracle("WaveletOracle", sessions)):
        e, y = s["ev"][0], ys[0]
        scale = 2.0 ** rng.choice((0, 0, -5, 30, -60, 100))
        x = numpy.array([[complex(*v) for v in r] for r in e["x"]]) * scale
        x = x if x.imag.any() else x.real
        o = transform(rng, w, present(x, e["shape"], rng.choice(FORM)), e["count"], e["inverse"])
        expected = numpy.array([[complex(*v) for v in r] for r in y["y"]]) * scale
        ctx.expect(not o.error and matches(o.value, expected, e["shape"], 1e-9, numpy.abs(x).max()), "Haar transform differs from the specification", lambda: dict(event=e, observed=repr(o)))
    ctx.sample(sessions[0])


def planned(ctx, objects):
    rng = ctx.rng
    sessions = []
    for n in range(ctx.pick(3, 40)):
        for (style, order) in objects:
            count = rng.choice((1, 1, 2, 2, 3, 4))
            kind = rng.random()
            if kind < 0.4:
                shape = [rng.choice((1, 2, 3)) * 2**count]
            elif kind < 0.6:
                shape = rng.choice(([1, rng.choice((1, 2, 3)) * 2**count], [rng.choice((1, 2, 3)) * 2**count, 1]))
            elif kind < 0.93 or n:
                shape = [rng.choice((1, 2)) * 2**count, rng.choice((1, 2, 3)) * 2**count]
            else:
                shape = rng.choice(([1, 1], [1]))
            if n == 0 and rng.random() < 0.6:
                # Long signals, large matrices, many levels.
                count = rng.choice((1, 2, 5, 6, 7, 8, 9))
                k = 2**count
                if rng.random() < 0.6:
                    shape = [k * rng.choice([v for v in (1, 2, 3, 5, 8, 16, 64, 128, 250, 256) if 100 <= v * k <= 1300] or [1])]
                else:
                    shape = [k * rng.choice([v for v in (1, 3, 8, 16, 32, 50) if v * k <= 130] or [1]) for _ in range(2)] if count < 7 else [1, k]
            sessions.append(dict(cfg=dict(style=style, order=order), ev=[dict(kind="plan", shape=shape, count=count, inverse=rng.random() < 0.5, taps=order + 1)]))
    for s, ys in zip(sessions, ctx.oracle("WaveletOracle", sessions, workers=1)):
        e, plan = s["ev"][0], ys[0]
        w, taps = objects[s["cfg"]["style"], s["cfg"]["order"]]
        shape = e["shape"] if len(e["shape"]) == 2 else [1, *e["shape"]]
        for _ in range(2):
            real = rng.random() < 0.6
            x = numpy.array([[complex(*gauss(rng, 50, real)) for _ in range(shape[1])] for _ in range(shape[0])]) * 2.0 ** rng.choice((0, 0, -5, 30, -60, 100))
            x = x.real if real else x
            p = present(x, e["shape"], rng.choice(FORM))
            before = numpy.array(p)
            o = transform(rng, w, p, e["count"], e["inverse"])
            expected = run_plan(plan, taps[1 if e["inverse"] else 0], x)
            ctx.expect(not o.error and matches(o.value, expected, e["shape"], 1e-8, numpy.abs(x).max()), "transform differs from the specification", lambda: dict(cfg=s["cfg"], event=e, signal=str(x.tolist())[:4000], observed=repr(o)))
            ctx.expect(same(before, p), "the signal passed in was modified", dict(cfg=s["cfg"], event=e))
            ctx.count("calls compared")
    ctx.sample(dict(cfg=sessions[0]["cfg"], ev=sessions[0]["ev"]))


def reconstruct(ctx, objects):
    """One level of analysis and synthesis: the signal delayed by the order less one along each dimension longer than one."""

    rng = ctx.rng
    for (style, order), (w, _) in objects.items():
        for _ in range(ctx.pick(4, 30)):
            kind, n, m = rng.random(), 2 * (rng.randint(1, 25) if rng.random() < 0.8 else rng.randint(60, 130)), 2 * rng.randint(1, 25)
            shape = [n] if kind < 0.4 else [1, n] if kind < 0.5 else [n, 1] if kind < 0.6 else [n, m]
            real = rng.random() < 0.6
            x = numpy.array([complex(*gauss(rng, 50, real)) for _ in range(int(numpy.prod(shape)))]).reshape(shape)
            x = x.real if real else x
            o = transform(rng, w, x, 1, False)
            r = transform(rng, w, o.value, 1, True) if not o.error else o
            expected = numpy.zeros(shape, x.dtype)
            d = order - 1
            if len(shape) == 1:
                if d < n:
                    expected[d:] = x[: n - d]
            else:
                a, b = (d if shape[0] > 1 else 0), (d if shape[1] > 1 else 0)
                if a < shape[0] and b < shape[1]:
                    expected[a:, b:] = x[: shape[0] - a, : shape[1] - b]
            ctx.expect(not r.error and matches(r.value, expected, shape, 1e-6, 50), "synthesis of an analysis is the delayed signal", lambda: dict(style=style, order=order, shape=shape, signal=x.tolist(), observed=repr(r)))
            ctx.count("round trips")


def rejections(ctx, objects):
    from diamondback import WaveletTransform

    rng = ctx.rng
    for style in ("Haar", "Daubechies", "Coiflet", "Symmlet", "Meyer", "", "db2"):
        for order in (-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 21, 29, 31):
            o = call(WaveletTransform, style, order)
            ctx.expect(bool(o.error) == (order not in ORDERS.get(style, ())), "exactly the unsupported styles and orders are rejected", lambda: dict(style=style, order=order, observed=repr(o)))
    sessions = []
    for _ in range(ctx.pick(150, 1000)):
        shape = [rng.randint(1, 12) for _ in range(rng.choice((1, 2, 2)))] if rng.random() < 0.9 else [2, 2, 2]
        sessions.append(dict(cfg=dict(), ev=[dict(kind="plan", shape=shape, count=rng.choice((-1, 0, 1, 1, 2, 3)), inverse=rng.random() < 0.5, taps=2)]))
    for s, ys in zip(sessions, ctx.oracle("WaveletOracle", sessions, workers=1)):
        e, y = s["ev"][0], ys[0]
        w = rng.choice(list(objects.values()))[0]
        o = call(w.transform, numpy.ones(e["shape"]), e["count"], e["inverse"])
        ctx.expect(bool(o.error) != y["accept"], "exactly the dimensions that are not unity or a multiple of 2**count are rejected", lambda: dict(event=e, observed=repr(o)))
        if y["accept"] and not o.error:
            ctx.expect(numpy.shape(o.value) == tuple(e["shape"]), "the shape is preserved", lambda: dict(event=e, observed=repr(o)))
    w = objects["Haar", 1][0] if ("Haar", 1) in objects else None
    for x in ([], numpy.zeros(0), numpy.zeros((0, 2))):
        ctx.expect(w is None or bool(call(w.transform, x, 1).error), "an empty signal is rejected", dict(x=repr(x)))
