"""C19 Complex transform."""

from common import *

R3 = 3.0**0.5


def real(r):
    return r[0] + r[1] * R3


def signals(e, scale, form):
    """The array a caller presents for an event: three real rows, or one complex (or real) row, in one or two dimensions."""

    if e["three"]:
        a = numpy.array([[real(s[i]) * scale for s in e["x"]] for i in range(3)])
    else:
        z = [complex(real(s[0]), real(s[1])) * scale for s in e["x"]]
        a = numpy.array([v.real for v in z] if e["real"] else z)
        if len(e["shape"]) == 2:
            a = a.reshape(1, -1)
    whole = not numpy.iscomplexobj(a) and bool((a == numpy.round(a)).all() and (numpy.abs(a) < 2.0**50).all())
    if form == "list":
        return a.tolist()
    if form == "rows" and a.ndim == 2:
        return [row for row in a]
    if form == "int64" and whole:
        return a.astype(int)
    if form == "fortran":
        return numpy.asfortranarray(a)
    if form == "strided":
        b = numpy.zeros((*a.shape[:-1], 2 * a.shape[-1]), a.dtype)
        b[..., ::2] = a
        b[..., 1::2] = 7.5
        return b[..., ::2]
    if form == "readonly":
        a.flags.writeable = False
    return a


FORMS_2D = ("array", "list", "rows", "int64", "fortran", "strided", "readonly")


def compare(ctx, e, expected, scale, clause):
    from diamondback import ComplexTransform

    x = signals(e, scale, e["form"])
    before = numpy.array(x)
    o = call(ComplexTransform.transform, x, e["neutral"]) if e["pass"] else call(ComplexTransform.transform, x=x, neutral=e["neutral"])
    if e["neutral"] and e.get("default"):
        o = call(ComplexTransform.transform, x)
    mag = max([abs(v) for v in numpy.asarray(before).ravel()] + [1e-300])
    good = not o.error
    if good:
        y = numpy.asarray(o.value)
        n = len(expected)
        if e["three"]:
            good = y.shape == (n,) and close_all(y, expected, 1e-9, mag)
        else:
            good = y.shape == (3, n) and not numpy.iscomplexobj(y) and all(close_all(y[i], [v[i] for v in expected], 1e-9, mag) for i in range(3))
    ctx.expect(good, clause, lambda: dict(event=e, scale=scale, expected=str(expected)[:3000], observed=repr(o)))
    ctx.expect(same(before, numpy.array(x)), "the signal passed in was modified", dict(event=e))
    ctx.count("calls compared")
    return o


def numbers(e, y, scale):
    if e["three"]:
        return [complex(real(v[0]), real(v[1])) / 18.0 * scale for v in y]
    return [[real(v) / 4.0 * scale for v in s] for s in y]


def run(ctx):
    rng = ctx.rng
    rows = ctx.explore("ComplexTransformMC", dict(Values="<- MCValues", Reals="<- MCReals"),
                       invariants=("RemovesZeroSequence", "ComplexReturns", "PhasesSumToZero", "GainInverts", "GainIs", "NeutralIsGain", "RotationPermutes", "Additive"))
    ctx.sample(rows[len(rows) // 2])
    # Every enumerated sample, grouped into signals: each sample is transformed on its own.
    groups = {}
    for r in rows:
        three = r["z"] == [[0, 0], [0, 0]]
        groups.setdefault((three, r["neutral"]), []).append(r)
    for (three, neutral), rs in sorted(groups.items()):
        rng.shuffle(rs)
        while rs:
            n = min(len(rs), rng.choice((1, 2, 3, 3, 4, 7, 12)))
            part, rs = rs[:n], rs[n:]
            one = rng.random() < 0.5
            e = dict(three=three, neutral=neutral, real=False, form=rng.choice(FORMS_2D),
                     shape=[3, n] if three else [n] if one else [1, n], x=[r["x"] if three else r["z"] for r in part])
            e["pass"], e["default"] = rng.random() < 0.5, rng.random() < 0.5
            scale = 2.0 ** rng.choice((0, 0, -8, 40, -80))
            compare(ctx, e, numbers(e, [r["f"] if three else r["b"] for r in part], scale), scale, "replayed behaviour differs")
            ctx.validated += n
    sessions = [session(rng) for _ in range(ctx.pick(250, 4000))] + [session(rng, True) for _ in range(ctx.pick(30, 300))]
    for s, ys in zip(sessions, ctx.oracle("ComplexTransformOracle", sessions)):
        for e, y in zip(s["ev"], ys):
            if not y["accept"]:
                rejected(ctx, e)
            else:
                o = compare(ctx, e, numbers(e, y["y"], s["scale"]), s["scale"], "transform differs from the specification")
                round_trip(ctx, e, o, s["scale"])
    ctx.sample(sessions[0])
    ctx.assumptions.append("samples are exact numbers of Z[sqrt 3] scaled by powers of two; comparison within 1e-9 of the largest sample")


def round_trip(ctx, e, o, scale):
    """Back with the same condition: the signal without its zero sequence, or the complex signal."""

    from diamondback import ComplexTransform

    if o.error:
        return
    x = numpy.array(signals(e, scale, "array"))
    expected = x - x.mean(axis=0) if e["three"] else x.reshape(-1)
    r = call(ComplexTransform.transform, o.value, e["neutral"])
    mag = max(numpy.abs(x).max(), 1e-300)
    good = not r.error and numpy.shape(r.value) == expected.shape and bool((numpy.abs(r.value - expected) <= 1e-9 * mag).all())
    ctx.expect(good, "a round trip returns the signal without its zero sequence", lambda: dict(event=e, scale=scale, observed=repr(r), expected=repr(expected)))


def rejected(ctx, e):
    from diamondback import ComplexTransform

    for x in (numpy.ones(e["shape"]), numpy.ones(e["shape"]).tolist(), numpy.ones(e["shape"], complex)):
        r = call(ComplexTransform.transform, x, e["neutral"])
        ctx.expect(bool(r.error), "a signal of another shape is rejected", lambda: dict(shape=e["shape"], observed=repr(r)))


def session(rng, huge=False):
    ev = []
    for _ in range(rng.randint(1, 4) if not huge else 1):
        neutral, kind = rng.random() < 0.5, rng.random()
        e = dict(neutral=neutral, form=rng.choice(FORMS_2D), real=False, three=False, x=[], default=rng.random() < 0.5)
        e["pass"] = rng.random() < 0.5
        if kind < 0.15:
            e["shape"] = rng.choice(([0], [2, 4], [4, 3], [4, 1], [3, 0], [1, 0], [0, 3], [1, 3, 2], [3, 1, 1], [3, 3, 3], [1, 1, 1], [6, 1], [2, 1]))
            ev.append(e)
            continue
        n = rng.choice((1, 2, 3, 3, 4, 5, 8, 13, 30)) if not huge else rng.choice(HUGE)
        mag = rng.choice((2, 9, 1000))
        surd = rng.random() < 0.3

        def number():
            return [rng.randint(-mag, mag), rng.randint(-mag, mag) if surd else 0]

        if kind < 0.55:
            e["three"], e["shape"] = True, [3, n]
            e["x"] = [[number() for _ in range(3)] for _ in range(n)]
            if rng.random() < 0.3:  # no zero sequence
                for s in e["x"]:
                    s[2] = [-s[0][0] - s[1][0], -s[0][1] - s[1][1]]
        else:
            e["real"] = rng.random() < 0.25
            e["shape"] = rng.choice(([n], [1, n]))
            e["x"] = [[number(), [0, 0] if e["real"] else number()] for _ in range(n)]
        ev.append(e)
    return dict(cfg=dict(), ev=ev, scale=2.0 ** rng.choice((0, 0, 0, -20, 10, 100, -100)))
