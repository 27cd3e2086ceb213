"""C17 Gaussian model."""

from common import *


def make(r):
    from diamondback import GaussianModel

    return call(GaussianModel, r[0] / r[1]) if r != [1, 10] else call(GaussianModel)


def samples(rng, rows, scale=1.0, form=None):
    form = form or rng.choice(("float64", "int64", "int16", "fortran", "float64"))
    a = numpy.array(rows, float) * scale
    if form in ("int64", "int16") and scale == 1.0:
        return numpy.array(rows, form)
    return numpy.asfortranarray(a) if form == "fortran" else a


def labels(rng, ys):
    form = rng.choice(("int64", "int64", "int32", "int8", "int16"))
    a = numpy.array(ys, "int64")
    b = a.astype(form)
    return b if (b == a).all() else a


def predictions(o):
    """Observed predictions as a list of lists of labels."""

    try:
        p = numpy.asarray(o.value)
        if p.ndim != 2 or p.dtype.kind not in "iuf":
            return []
        return [[snap(v) for v in row] for row in p]
    except Exception:
        return []


def event(rng, o, e):
    """Applies an event to the model and records what was observed."""

    if e["op"] == "regularize":
        r = call(setattr, o, "regularize", e["r"][0] / e["r"][1])
    elif e["op"] == "fit":
        x, y = samples(rng, e["x"]), labels(rng, e["y"])
        if e["kind"] == "mismatch":
            y = numpy.append(y, y[-1]) if rng.random() < 0.5 else y[:-1]
        elif e["kind"] == "float":
            y = y.astype(float)
        elif e["kind"] == "shape":
            x = rng.choice((x[:, 0], x[:, :0], x[:, :, None]))
        elif e["kind"] == "empty":
            x, y = x[:0], y[:0]
        r = call(o.fit, x, y)
    else:
        x = samples(rng, e["x"])
        if e["kind"] == "shape":
            x = rng.choice((x[0], x[:0], x[:, :0], x[:, :, None]))
        r = call(o.predict, x)
        e["p"] = [] if r.error else predictions(r)
    e["e"] = r.error or ""
    e.setdefault("p", [])
    e.setdefault("x", [[0]])
    e.setdefault("y", [])
    e.setdefault("r", [0, 1])
    e.setdefault("kind", "")
    return e


def dataset(rng, d=None, small=False):
    d = d or rng.choice((1, 1, 2, 2, 3))
    mag = {1: 30, 2: 5, 3: 2}[d]
    per = {1: 6, 2: 5, 3: 3}[d]
    names = rng.sample((-9, -1, 0, 1, 2, 3, 5, 8, 100, 70000, -123456), rng.choice((1, 2, 3, 4)))
    xs, ys = [], []
    for c in names:
        center = [rng.randint(-mag // 2, mag // 2) for _ in range(d)]
        spread = rng.choice((0, 1, mag // 2))
        for _ in range(rng.randint(1, per)):
            xs.append([max(-mag, min(mag, u + rng.randint(-spread, spread))) for u in center])
            ys.append(c)
    order = list(range(len(xs)))
    rng.shuffle(order)
    return [xs[k] for k in order], [ys[k] for k in order], d, mag


def session(rng, make_model, regs=((1, 10), (1, 10), (1, 2), (1, 1), (2, 1))):
    r = list(rng.choice(regs))
    trace = dict(cfg=dict(r=r), ev=[])
    o = make_model(r)
    if o.error:
        trace["ev"].append(dict(op="fit", kind="", x=[[0]], y=[0], p=[], r=[0, 1], e=o.error))
        return trace
    d, mag = 1, 3
    last = None
    for k in range(rng.randint(3, 10)):
        u = rng.random()
        if u < 0.16:
            e = dict(op="regularize", r=list(rng.choice(regs)) if rng.random() < 0.6 else [-1, 5])
        elif u < 0.38 or (k == 0 and u < 0.8):
            xs, ys, d2, mag2 = dataset(rng) if last is None or rng.random() < 0.5 else last
            if last and rng.random() < 0.5:
                # Training data that resemble the earlier ones: the same but for a label, a sample, or their order.
                xs, ys, u = [list(v) for v in xs], list(ys), rng.random()
                if u < 0.3:
                    xs[rng.randrange(len(xs))][0] += rng.choice((-1, 1)) if max(abs(v) for row in xs for v in row) < mag2 else 0
                elif u < 0.6:
                    old = rng.choice(ys)
                    new = max(ys) + rng.choice((1, 7))
                    ys = [new if v == old else v for v in ys]
                elif u < 0.8:
                    xs, ys = xs[::-1], ys[::-1]
            last = xs, ys, d2, mag2
            kind = rng.choice(("", "", "", "mismatch", "float", "shape", "empty"))
            if not kind:
                d, mag = d2, mag2
            e = dict(op="fit", x=xs, y=ys, kind=kind)
        else:
            dd = d if rng.random() < 0.85 else rng.choice((1, 2, 3))
            m = {1: mag, 2: min(mag, 5), 3: 2}[dd]
            e = dict(op="predict", x=[[rng.randint(-m, m) for _ in range(dd)] for _ in range(rng.choice((1, 1, 3, 8)))],
                     kind=rng.choice(("", "", "", "", "", "shape")))
        trace["ev"].append(event(rng, o.value, e))
    return trace


def grid(ctx, make_model):
    """The enumerated training sets of the specification, as recorded sessions."""

    rng, traces = ctx.rng, []
    for points, count in (("<- MCLine", ctx.pick(4, 5)), ("<- MCPlane", 4), ("<- MCSpace", ctx.pick(3, 4))):
        rows = ctx.explore("GaussianMC", dict(Points=points, Count=count, Regs="<- MCRegs"), invariants=("Definite", "NonNegative", "Unordered", "ProportionsOnly", "AdjugateInverts"), label=points)
        rng.shuffle(rows)
        queries = {1: [[-3], [0], [2], [5]], 2: [[0, 0], [2, 1], [-1, 4], [3, 3]], 3: [[0, 0, 0], [1, 1, 2], [-1, 2, 0]]}
        for row in rows[: ctx.pick(450, 4000)]:
            o = make_model(row["r"])
            trace = dict(cfg=dict(r=row["r"]), ev=[])
            if o.error:
                ctx.violate("construction raised an error", dict(r=row["r"], observed=repr(o)))
                continue
            trace["ev"].append(event(rng, o.value, dict(op="fit", kind="", x=row["x"], y=row["y"])))
            trace["ev"].append(event(rng, o.value, dict(op="predict", kind="", x=queries[len(row["x"][0])])))
            traces.append(trace)
    return traces


def large(ctx, make_model, limit=1e12, tol=1e-7, count=1):
    """Training sets of many classes, dimensions and samples, from statistics computed by the specification."""

    rng, sessions = ctx.rng, []
    for _ in range(count):
        d = rng.choice((1, 2, 3, 4, 5, 8, 9, 12, 16))
        classes = rng.choice((1, 2, 3, 5, 8, 12, 20)) if rng.random() < 0.8 else rng.choice((40, 130, 260))
        d = d if classes < 100 else rng.choice((1, 2))
        xs, ys = [], []
        per = rng.choice((2, 5, 20, 60, 150))
        for c in rng.sample(range(-1000, 1000), classes):
            center = [rng.randint(-10, 10) for _ in range(d)]
            spread = [rng.randint(0, 6) for _ in range(d)]
            for _ in range(min(rng.randint(2, max(2, per)), 1500 // classes)):
                xs.append([u + rng.randint(-s, s) for u, s in zip(center, spread)])
                ys.append(c)
        keep = list(range(len(xs)))
        if rng.random() < 0.7:
            rng.shuffle(keep)
        sessions.append(dict(cfg=dict(r=list(rng.choice(((1, 10), (1, 2), (1, 1), (2, 1))))), ev=[dict(x=[xs[k] for k in keep], y=[ys[k] for k in keep])], d=d))
    for session, results in zip(sessions, ctx.oracle("GaussianOracle", sessions, label="large")):
        r, e, d = session["cfg"]["r"], session["ev"][0], session["d"]
        offset = rng.choice((0, 0, 1, -1000, 1000))
        o = make_model(r)
        f = call(o.value.fit, samples(rng, [[v + offset for v in row] for row in e["x"]]), labels(rng, e["y"])) if not o.error else o
        if not ctx.expect(not f.error, "fit raised an error", lambda: dict(r=r, dimension=d, samples=len(e["x"]), observed=repr(f))):
            continue
        queries = [list(rng.choice(e["x"])) for _ in range(rng.choice((1, 7, 40)))]
        for row in queries:
            for k in range(d):
                row[k] += rng.choice((0, 0, -1, 1, 2))
        p = call(o.value.predict, samples(rng, [[v + offset for v in row] for row in queries]))
        got = predictions(p) if not p.error else []
        score = []
        for row in queries:
            here = {}
            for c in results[0]:
                s = c["s"]
                v = s["n"] * numpy.array(row, float) - numpy.array(s["S"], float)
                here[c["label"]] = s["rd"] * float(v @ numpy.linalg.solve(numpy.array(s["A"], float), v))
            score.append(here)
        good = len(got) == len(queries)
        for row, here in zip(got, score):
            s = [min(here.get(c, -1.0), limit) for c in row]
            good = good and sorted(row) == sorted(here) and all(u <= v + tol * (1.0 + abs(v)) for u, v in zip(s, s[1:]))
        ctx.expect(good, "large training sets: every class once, in order of distance", lambda: dict(r=r, dimension=d, classes=len(results[0]), samples=len(e["x"]), offset=offset, queries=queries[:3], observed=repr(p)[:500], distances=str(score[:3])[:800]))
        ctx.count("large training sets compared")


def run(ctx):
    traces = grid(ctx, make)
    ctx.count("training sets of the grid", len(traces))
    traces += [session(ctx.rng, make) for _ in range(ctx.pick(300, 4000))]
    ctx.count("calls recorded", sum(len(t["ev"]) for t in traces))
    ctx.sample(traces[0])
    ctx.sample(traces[-1])
    ctx.judge("GaussianTrace", traces, dict(InitOf="<- GInit", StepOf="<- GStep"))
    large(ctx, make, count=ctx.pick(60, 600))
    from diamondback import GaussianModel

    for r in (-0.001, -5):
        ctx.expect(bool(call(GaussianModel, r).error), "a negative regularization is rejected", dict(regularize=r))
