"""C16 Diversity model."""

from common import *

STYLES = ("Chebyshev", "Euclidean", "Geometric", "Manhattan")


def members(o, scale):
    """The retained samples, as integers; rows not yet filled are absent."""

    s = call(lambda: numpy.array(o.s, float))
    if s.error or s.value.ndim != 2:
        return [[NAN]]
    big = numpy.finfo(float).max
    return [ints_of(row, scale) for row in s.value if len(row) and not (row == big).all()]


def exact(y, style, dim, scale):
    """Reported diversities as the integers of the specification."""

    try:
        y = numpy.asarray(y, float)
        if y.ndim != 1:
            return [NAN]
        power = dict(Euclidean=2, Geometric=dim).get(style, 1)
        return [snap((float(v) / scale) ** power, 1.0, 1e-6) for v in y]
    except Exception:
        return [NAN]


def data(rows, scale, form):
    a = numpy.array(rows, float) * scale
    if form == "list":
        return a.tolist()
    if form == "rows":
        return [numpy.array(row) for row in a]
    if form in ("int64", "int16") and scale == 1.0:
        return numpy.array(rows, form)
    if form == "fortran":
        return numpy.asfortranarray(a)
    return a


def run(ctx):
    from diamondback import DiversityModel

    rng = ctx.rng
    for points, dim in (("<- MCLine", 1), ("<- MCPlane", 2)):
        rows = ctx.explore("DiversityMC", dict(Points=points, Sizes=ctx.pick("{2, 3}", "{2, 3, 4}"), Styles="<- MCStyles"),
                           invariants=("Reported", "Subset", "Exchange"), properties=("Monotone", "OneAtATime"), emit=(), emit_actions=("EmitStep",), view="View", label=points)
        cases = {}
        for row in rows:
            cases.setdefault(key_of([row["style"], row["size"], row["m"], row["x"]]), []).append(row)
        for group in cases.values():
            r = group[0]
            scale, form = 2.0 ** rng.choice((0, 0, -6, 12, -25, 25)), rng.choice(("array", "list", "int64", "rows", "fortran"))
            o = call(DiversityModel, r["style"].lower() if rng.random() < 0.3 else r["style"], r["size"] - 1)
            if not ctx.expect(not o.error, "construction raised an error", lambda: dict(style=r["style"], observed=repr(o))):
                continue
            given = r["m"] + [r["x"]]
            ys, k, bad = [], 0, None
            for n in partition(rng, len(given)):
                y = call(o.value.fit, data(given[k: k + n], scale, form))
                bad = y.error
                if bad:
                    break
                ys += exact(y.value, r["style"], dim, scale)
                k += n
            now = members(o.value, scale)
            ctx.expect(not bad and any(ys == [0] * len(r["m"]) + [g["y"]] and now == g["n"] for g in group), "replayed behaviour differs",
                       lambda: dict(style=r["style"], size=r["size"], presented=given, observed=now, diversity=ys, error=bad, scale=scale,
                                    expected=[dict(members=g["n"], diversity=g["y"]) for g in group]))
            ctx.validated += 1
            ctx.count("steps replayed")
        ctx.sample(rows[len(rows) // 2])
    traces = [session(rng, n) for n in range(ctx.pick(260, 2500))]
    traces += [session(rng, n, True) for n in range(ctx.pick(30, 300))]
    ctx.count("calls recorded", sum(len(t["ev"]) for t in traces))
    ctx.sample(traces[0])
    ctx.judge("DiversityTrace", traces, dict(InitOf="<- DInit", StepOf="<- DStep"))
    for style, order in (("Cosine", 2), ("", 2), ("Euclidean", -1), ("Manhattan ", 1)):
        ctx.expect(bool(call(DiversityModel, style, order).error), "arguments out of range are rejected", dict(style=style, order=order))


def session(rng, n, huge=False):
    from diamondback import DiversityModel

    style, size = rng.choice(STYLES), rng.choice((2, 2, 3, 4, 5, 6)) if not huge else rng.choice((2, 3, 5, 8, 12, 16, 17))
    trace = dict(cfg=dict(style=style, size=size), ev=[])
    o = call(DiversityModel, rng.choice((style, style.lower(), style.upper())), size - 1)
    if o.error:
        trace["ev"].append(dict(op="fit", x=[[0]], y=[], s=[], e=o.error))
        return trace
    # Powers of magnitudes stay in the range of doubles.
    scale = 2.0 ** rng.choice((0, 0, -6, 12, -25, 25) if style == "Geometric" else (0, 0, -6, 12, -25, 25, 400, -300))
    dim, mag = rng.choice((1, 1, 2, 3)), rng.choice((3, 6, 40)) if not huge or style == "Geometric" else rng.choice((60, 1000))
    dims = (1, 2, 3) if not huge or style == "Geometric" else (1, 3, 4, 8, 9, 16, 20, 33)
    dim = rng.choice(dims) if huge else dim
    fitted = False
    for _ in range(rng.randint(3, 10) if not huge else 4):
        r = rng.random()
        if r < 0.1:
            dim = rng.choice(dims)
            c = call(o.value.clear)
            trace["ev"].append(dict(op="clear", x=[], y=[], s=members(o.value, scale), e=c.error or ""))
            fitted = False
        elif r < 0.16:
            # A full state, as another model may have retained it.
            rows = [[rng.randint(-mag, mag) for _ in range(dim)] for _ in range(size)]
            c = call(setattr, o.value, "s", data(rows, scale, rng.choice(("array", "list", "rows"))))
            trace["ev"].append(dict(op="assign", x=rows, y=[], s=members(o.value, scale), e=c.error or ""))
            fitted = True
        elif r < 0.29:
            kinds = [numpy.zeros(dim), numpy.zeros((0, dim)), numpy.zeros((2, 0)), numpy.zeros((2, dim, 1))]
            if fitted:
                kinds += [numpy.ones((2, dim + 1)), numpy.ones((1, dim + 2))]
            c = call(o.value.fit, rng.choice(kinds))
            trace["ev"].append(dict(op="bad", x=[], y=[], s=members(o.value, scale) if fitted else [], e=c.error or ""))
        else:
            m = rng.choice((1, 1, 2, 3, 8)) if not huge else rng.choice((1, 2, 12, 25) if size > 8 else (1, 5, 60, 200))
            line = rng.random() < 0.3
            rows = [[rng.randint(-mag, mag) for _ in range(dim)] if not line else [k + len(trace["ev"])] * dim for k in range(m)]
            c = call(o.value.fit, data(rows, scale, rng.choice(("array", "list", "int64", "int16", "rows", "fortran"))))
            trace["ev"].append(dict(op="fit", x=rows, y=[] if c.error else exact(c.value, style, dim, scale), s=members(o.value, scale), e=c.error or ""))
            fitted = True
    if not trace["ev"]:
        return session(rng, n)
    return trace
