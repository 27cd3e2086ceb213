"""C21 Power spectral density."""

from common import *


def transform(e, x, b, rows):
    from diamondback import PsdTransform

    if e["style"] == 0:
        return call(PsdTransform.transform, x, b, e["stride"], rows)
    if e["style"] == 1 and not rows:
        return call(PsdTransform.transform, x, b, e["stride"])
    return call(PsdTransform.transform, x=x, b=b, index=e["stride"], spectrogram=rows)


def power(u, n):
    return cyc(u, n).real / n**2


def check(ctx, e, rows, clause, mean=None):
    """A call against exact rows (a spectrogram), their mean, or an exact sum of rows."""

    n = len(e["b"])
    unit = (e["scale"] * e["gain"]) ** 2
    x, b = signal_of(e["x"], e["scale"], e["form"]), signal_of(e["b"], e["gain"], e["bform"])
    before = numpy.array(x), numpy.array(b)
    f = [2.0 * k / n for k in range((n + 1) // 2)]
    scale = unit * max(max(abs(complex(*v)) for v in e["x"]) * max(abs(complex(*v)) for v in e["b"]), 1e-150) ** 2
    if mean is None:
        values = [[power(u, n) * unit for u in row] for row in rows]
        average = [sum(r[k] for r in values) / len(values) for k in range(len(f))]
    else:
        values, average = None, [power(u, n) * unit / mean for u in rows]
    for kind in ([True, False] if values else [False]):
        o = transform(e, x, b, kind)
        expected = values if kind else [average]
        good = not o.error and isinstance(o.value, tuple) and len(o.value) == 2 and close_all(o.value[1], f, 1e-12, 1.0)
        if good:
            good = isinstance(o.value[0], numpy.ndarray)
            y = numpy.asarray(o.value[0])
            y = y if kind else y[None]
            good = good and y.shape == (len(expected), len(f)) and not numpy.iscomplexobj(y) and bool((y >= 0.0).all())
            good = good and all(close_all(a, v, 1e-9, scale) for a, v in zip(y, expected))
        ctx.expect(good, clause, lambda: dict(event=e, spectrogram=kind, observed=repr(o), expected=str(expected)[:500], frequencies=f))
        ctx.count("calls compared")
    ctx.expect(same(before, (numpy.array(x), numpy.array(b))), "an argument was modified", dict(event=e))


def check_long(ctx, e, y):
    """A long call: its shape, the powers asked for, and a spectrum that is the mean of the spectrogram."""

    n, m = len(e["b"]), (len(e["b"]) + 1) // 2
    unit = (e["scale"] * e["gain"]) ** 2
    scale = unit * max(max(abs(complex(*v)) for v in e["x"]) * max(abs(complex(*v)) for v in e["b"]), 1e-150) ** 2
    x, b = signal_of(e["x"], e["scale"], e["form"]), signal_of(e["b"], e["gain"], e["bform"])
    rows, mean = transform(e, x, b, True), transform(e, x, b, False)
    f = [2.0 * k / n for k in range(m)]
    good = not rows.error and not mean.error and all(isinstance(o.value, tuple) and len(o.value) == 2 and close_all(o.value[1], f, 1e-12, 1.0) for o in (rows, mean))
    good = good and numpy.shape(rows.value[0]) == (y["n"], m) and numpy.shape(mean.value[0]) == (m,)
    expected = []
    if good:
        expected = [(abs(cys(u, n)) / n) ** 2 * unit if u else None for u in y["y"]]
        good = all(v is None or close(rows.value[0][i - 1][k - 1], v, 1e-9, scale) for (i, k), v in zip(e["at"], expected))
        good = good and close_all(mean.value[0], numpy.asarray(rows.value[0]).sum(0) / y["n"], 1e-9, scale)
    ctx.expect(good, "long power spectrum differs from the specification", lambda: dict(event=e, rows=repr(rows)[:1500], mean=repr(mean)[:1500], expected=str(expected)[:1000]))
    ctx.count("long calls compared")


def long_event(rng):
    n = rng.choice((17, 31, 32, 50, 64, 100, 127, 128, 200, 255, 256, 257, 400, 500, 512, 600, 1000, 1024))
    e = event(rng, n)
    if rng.random() < 0.3:
        # Many segments of a short window.
        n = rng.choice((1, 2, 3, 4, 7, 8, 16))
        e["b"] = [[rng.randint(1, 5), 0] for _ in range(n)]
        e["stride"] = rng.choice((1, 2, n, n + 1, max(1, n // 2)))
        e["x"] = gaussians(rng, n + e["stride"] * (rng.choice((65, 100, 129, 257, 300, 513, 1025)) - 1) + rng.randrange(e["stride"]), rng.choice((3, 20)), rng.random() < 0.5)
    count = (len(e["x"]) - n) // e["stride"] + 1
    at = [(1, 1), (count, (n + 1) // 2), (count, 1)] + [(rng.randint(1, count), rng.randint(1, (n + 1) // 2)) for _ in range(9)]
    e["at"] = [list(p) for p in at if p[0] >= 1]
    return e


def forms(rng, e):
    e["form"], e["bform"] = rng.choice(DOUBLE_FORMS), rng.choice(DOUBLE_FORMS)
    e["scale"], e["gain"] = 2.0 ** rng.choice((0, 0, -7, 20, -60, 100)), 2.0 ** rng.choice((0, 0, -2, 4))
    e["style"] = rng.randrange(3)
    return e


def run(ctx):
    rng = ctx.rng
    rows = ctx.explore("PsdMC", dict(Depth=ctx.pick(6, 7), Samples="<- MCSamples", Windows="<- MCWindows", Strides="1..4"),
                       ("RowPerSegment", "OnlyGains", "ZeroFrequency", "IsReal", "Quadratic"), ("Prefix",), spec="Spec")
    ctx.sample(rows[len(rows) // 2])
    rng.shuffle(rows)
    for row in rows[: ctx.pick(6000, 40000)]:
        e = forms(rng, dict(b=row["b"], x=row["x"], stride=row["stride"]))
        if row["y"]:
            check(ctx, e, row["y"], "replayed behaviour differs")
        else:
            reject(ctx, e)
        ctx.validated += 1
    sessions = [dict(cfg=dict(), ev=[event(rng) for _ in range(rng.randint(1, 3))]) for _ in range(ctx.pick(150, 1500))]
    for s, ys in zip(sessions, ctx.oracle("PsdOracle", sessions)):
        for e, y in zip(s["ev"], ys):
            if not y["accept"]:
                reject(ctx, e)
            elif e["rows"]:
                check(ctx, e, y["y"], "spectrogram differs from the specification")
            else:
                check(ctx, e, y["y"][0], "power spectrum differs from the specification", mean=y["n"])
    ctx.sample(sessions[0])
    sessions = [dict(cfg=dict(), ev=[long_event(rng)]) for _ in range(ctx.pick(50, 300))]
    for s, ys in zip(sessions, ctx.oracle("PsdOracle", sessions, label="long")):
        if ys[0]["accept"]:
            check_long(ctx, s["ev"][0], ys[0])


def reject(ctx, e):
    x, b = signal_of(e["x"], 1.0, e["form"]), signal_of(e["b"], 1.0, e["bform"])
    for kind in (True, False):
        r = transform(e, x, b, kind)
        ctx.expect(bool(r.error), "a signal shorter than the window, or an all-zero or empty window, is rejected", lambda: dict(event=e, observed=repr(r)))


def event(rng, long=None):
    n = long or rng.choice((1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 16))
    stride = rng.choice((1, 2, 3, n, max(1, n // 2), n + 1, 2 * n, 50))
    segments = rng.randint(1, 4) if not long or long > 300 else rng.choice((1, 2, 5, 9, 17, 33))
    length = n + stride * (segments - 1) + rng.randrange(stride)
    real = rng.random() < 0.5
    e = dict(stride=stride, rows=rng.random() < 0.6, x=gaussians(rng, length, rng.choice((3, 20)), real))
    kind = rng.random()
    if kind < 0.1:
        # Products of samples and coefficients beyond the range of the narrow types of both.
        low, top, form = rng.choice(((0, 250, "uint8"), (-120, 120, "int8")))
        top = top if n < 9 else 120
        e["x"] = [[rng.randint(low, top), 0] for _ in range(length)]
        e["b"] = [[rng.randint(1, 20), 0] for _ in range(n)]
        return {**forms(rng, e), "form": form, "bform": form, "scale": 1.0, "gain": 1.0}
    if kind < 0.4:
        e["b"] = [[1 + min(k, n - 1 - k), 0] for k in range(n)]
    elif kind < 0.9:
        e["b"] = gaussians(rng, n, 5, True, "noise")
        if all(v == [0, 0] for v in e["b"]):
            e["b"][rng.randrange(n)] = [2, 0]
    elif kind < 0.93:
        e["b"] = []
    elif kind < 0.96:
        e["b"] = [[0, 0] for _ in range(n)]
    else:
        e["b"] = [[1, 0] for _ in range(length + rng.randint(1, 3))]
    return forms(rng, e)
