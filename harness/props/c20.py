"""C20 Fourier transform."""

from common import *


def transform(x, b, inverse, style):
    from diamondback import FourierTransform

    if style == 0:
        return call(FourierTransform.transform, x, b, inverse)
    if style == 1 and not inverse:
        return call(FourierTransform.transform, x, b)
    return call(FourierTransform.transform, x=x, b=b, inverse=inverse)


def check(ctx, e, y, clause):
    """One transform call against its exact result."""

    n, scale = len(e["b"]), e["scale"]
    value = cys if "at" in e else cyc
    places = [a - 1 for a in e["at"]] if "at" in e else range(n)
    b = signal_of(e["b"], e["gain"], e["bform"])
    x = signal_of(e["x"], scale, e["form"])
    before = numpy.array(x), numpy.array(b)
    o = transform(x, b, e["inverse"], e["style"])
    weights = [complex(*v) for v in e["b"]]
    if e["inverse"]:
        expected = [value(u, n) * scale / (weights[k] * e["gain"]) if weights[k] else None for k, u in zip(places, y)]
        scales = max(abs(complex(*v)) for v in e["x"]) * scale * n
        f = list(range(n))
    else:
        expected = [value(u, n) * scale * e["gain"] / n for u in y]
        scales = max(abs(complex(*v)) for v in e["x"]) * scale * e["gain"] * max(abs(w) for w in weights)
        f = [2.0 * (i - n // 2) / n for i in range(n)]
    tol = 1e-9
    good = not o.error and isinstance(o.value, tuple) and len(o.value) == 2 and numpy.shape(o.value[0]) == (n,) and numpy.shape(o.value[1]) == (n,)
    if good:
        good = close_all(o.value[1], f, 1e-12, 1.0)
        for k, v in zip(places, expected):
            a = o.value[0][k]
            if v is not None:
                s = scales / (abs(weights[k]) * e["gain"]) if e["inverse"] else scales
                good = good and close(a, v, tol, max(s, 1e-300))
    ctx.expect(good, clause, lambda: dict(event=e, observed=repr(o)[:2000], expected=str(expected)[:2000], frequencies=f[:8]))
    ctx.expect(same(before, (numpy.array(x), numpy.array(b))), "an argument was modified", dict(event=e))
    ctx.count("calls compared")
    return o


def round_trip(ctx, e, o, recovered):
    """The inverse of an observed forward transform is the signal wherever the window is not zero, and zero at a lost edge."""

    n = len(e["b"])
    if o.error or e["inverse"]:
        return
    b = signal_of(e["b"], e["gain"], e["bform"])
    r = transform(o.value[0], b, True, e["style"])
    x = numpy.array(signal_of(e["x"], e["scale"], "complex128"))[:n]
    w = [complex(*v) for v in e["b"]]
    mag = max(numpy.abs(x).max(), 1e-300) * max(abs(v) for v in w)
    good = not r.error and numpy.shape(r.value[0]) == (n,)
    good = good and all(abs(a - v) <= 1e-9 * mag / abs(u) for a, v, u in zip(r.value[0], x, w) if u)
    # A lost edge is zero to the precision of its neighbour.
    good = good and all(abs(r.value[0][k]) <= 1e-9 * mag / abs(w[1 if k == 0 else n - 2]) for k, s in enumerate(recovered) if s == "zero")
    ctx.expect(good, "the inverse of the forward transform returns the signal", lambda: dict(event=e, forward=repr(o), inverse=repr(r)))


def energy(ctx, e, o):
    """All the values of a long transform: energy is preserved."""

    if o.error or e["inverse"]:
        return
    n = len(e["b"])
    x = numpy.array(signal_of(e["x"], e["scale"], "complex128"))[:n] * numpy.array(signal_of(e["b"], e["gain"], "complex128"))
    a, b = float(numpy.sum(numpy.abs(o.value[0]) ** 2)) * n, float(numpy.sum(numpy.abs(x) ** 2))
    ctx.expect(abs(a - b) <= 1e-9 * max(a, b), "energy is preserved", lambda: dict(event=e, spectrum=a, signal=b))


def random_form(rng, e):
    e["form"] = rng.choice(DOUBLE_FORMS)
    e["bform"] = rng.choice(DOUBLE_FORMS)
    e["scale"] = 2.0 ** rng.choice((0, 0, 0, -6, 30, -100, 200))
    e["gain"] = 2.0 ** rng.choice((0, 0, 0, -3, 5))
    e["style"] = rng.randrange(3)
    return e


def run(ctx):
    rng = ctx.rng
    inv = ("RoundTrip", "Parseval", "ConjugateSymmetric", "ZeroFrequencyIsSum", "Recovered")
    rows = ctx.explore("FourierMC", dict(Lengths="{1, 2, 3}", Samples="<- MCSamples", Weights="<- MCWeights"), inv)
    rows += ctx.explore("FourierMC", dict(Lengths=ctx.pick("{4}", "{4, 5}"), Samples="<- MCSmall", Weights="<- MCOne"), inv)
    rows += ctx.explore("FourierMC", dict(Lengths=ctx.pick("{5, 8}", "{5, 8, 11}"), Samples="<- MCSparse", Weights="<- MCUnit"), inv)
    ctx.sample(rows[len(rows) // 2])
    rng.shuffle(rows)
    for row in rows[: ctx.pick(6000, 60000)]:
        e = random_form(rng, dict(b=row["b"], x=row["x"], inverse=False))
        round_trip(ctx, e, check(ctx, e, row["y"], "replayed behaviour differs"), row["r"])
        ctx.validated += 1
    sessions = [dict(cfg=dict(), ev=[event(rng) for _ in range(rng.randint(1, 4))]) for _ in range(ctx.pick(250, 2500))]
    for s, ys in zip(sessions, ctx.oracle("FourierOracle", sessions)):
        for e, y in zip(s["ev"], ys):
            if y["accept"]:
                round_trip(ctx, e, check(ctx, e, y["y"], "transform differs from the specification"), y["r"])
            else:
                x, b = signal_of(e["x"], 1.0, e["form"]), signal_of(e["b"], 1.0, e["bform"])
                r = transform(x, b, e["inverse"], e["style"])
                ctx.expect(bool(r.error), "an empty signal, or an empty, longer or all-zero window is rejected", lambda: dict(event=e, observed=repr(r)))
    ctx.sample(sessions[0])
    sessions = [dict(cfg=dict(), ev=[long_event(rng)]) for _ in range(ctx.pick(60, 400))]
    for s, ys in zip(sessions, ctx.oracle("FourierOracle", sessions, label="long")):
        e, y = s["ev"][0], ys[0]
        if y["accept"]:
            o = check(ctx, e, y["y"], "long transform differs from the specification")
            round_trip(ctx, e, o, y["r"])
            energy(ctx, e, o)
    ctx.assumptions.append("coefficients whose magnitude is below 1e-8 count as zero in the code; windows tested are above that or exactly zero")


def long_event(rng):
    n = rng.choice((25, 32, 48, 63, 64, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 512, 513, 600, 1000, 1024, 1025, 2000, 2048))
    e = event(rng, n)
    e["at"] = sorted(rng.sample(range(1, n + 1), min(n, 12)) + [1, n, n // 2 + 1])
    return e


def event(rng, n=None):
    n = n or rng.choice((1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 20, 21, 24))
    extra = rng.choice((0, 0, 0, 1, 2, n))
    e = dict(inverse=rng.random() < 0.4)
    e["x"] = gaussians(rng, n + extra, rng.choice((3, 9, 100)), rng.random() < 0.4)
    kind = rng.random()
    if kind < 0.3:
        e["b"] = [[1, 0] for _ in range(n)]
    elif kind < 0.55:  # Hann like, with ends that are zero, both or one
        e["b"] = [[1 + min(k, n - 1 - k), 0] for k in range(n)]
        if n > 2 and rng.random() < 0.7:
            e["b"][0] = [0, 0]
        if n > 2 and rng.random() < 0.7:
            e["b"][-1] = [0, 0]
    elif kind < 0.9:
        e["b"] = gaussians(rng, n, 5, True, "noise")
        if all(v == [0, 0] for v in e["b"]):
            e["b"][rng.randrange(n)] = [2, 0]
    elif kind < 0.93:
        e["b"] = []
    elif kind < 0.96:
        e["b"] = [[0, 0] for _ in range(n)]
    else:
        e["b"] = [[1, 0] for _ in range(n + extra + rng.randint(1, 3))]
    if rng.random() < 0.03:
        e["x"] = []
    if e["inverse"]:
        # The code replaces a zero at an end of the window, and divides by a zero inside it: only nonzero weights are compared.
        pass
    return random_form(rng, e)
