"""C10 Goertzel filter."""

from common import *


def frequency(m, L):
    """The frequency in [-1, 1] whose unit exponential is zeta to the power m."""

    m = m % L
    f = 2.0 * m / L
    return f if f <= 1.0 else f - 2.0


def make(w, m, L, form="float64"):
    from diamondback import GoertzelFilter

    return call(GoertzelFilter, signal_of(w, 1.0, form), frequency(m, L))


def check(ctx, session, results, clause):
    cfg = session["cfg"]
    o = session["object"]
    N, L, scale = len(cfg["w"]), cfg["L"], session["scale"]
    if not ctx.expect(not o.error, "construction raised an error", lambda: dict(cfg=cfg, observed=repr(o))):
        return
    mag = max(abs(complex(*v)) for e in session["ev"] for v in e["x"] or [[0, 0]]) * max(abs(complex(*v)) for v in cfg["w"])
    for k, (e, ys) in enumerate(zip(session["ev"], results)):
        if e["op"] == "frequency":
            r = call(setattr, o.value, "frequency", frequency(e["m"], L))
            good = not r.error and call(lambda: o.value.frequency).value == frequency(e["m"], L)
            expected = None
        else:
            x = signal_of(e["x"], scale, e["form"])
            r = call(o.value.filter, x)
            expected = [(cys if cfg["long"] else cyc)(y, L) / N for y in ys]
            good = not r.error and isinstance(r.value, numpy.ndarray) and close_all(r.value / scale, expected, 1e-9, max(mag, 1e-9))
        if not ctx.expect(good, clause, lambda: dict(cfg=cfg, history=session["ev"][max(0, k - 10): k + 1], event=k, observed=repr(r), expected=str(expected), scale=scale)):
            return
    ctx.count("calls compared", len(session["ev"]))


def run(ctx):
    rng = ctx.rng
    L = 8
    rows = ctx.explore("GoertzelMC", dict(Depth=ctx.pick(5, 6), L=L, Windows="<- MCWindows", Samples="<- MCSamples"),
                       invariants=("RecursionIsTransform", "OneOutputPerWindow"))
    for row in rows:
        ev, results = [], []
        for e in row["ev"][1:]:
            if e["op"] == "frequency":
                ev.append(dict(op="frequency", m=e["x"][0], x=[]))
                results.append([])
            elif ev and ev[-1]["op"] == "filter" and rng.random() < 0.5:
                ev[-1]["x"] = ev[-1]["x"] + e["x"]
                results[-1] = results[-1] + e["y"]
            else:
                ev.append(dict(op="filter", x=list(e["x"]), form=rng.choice(("complex128", "complex128", "complex64"))))
                results.append(list(e["y"]))
        m = row["ev"][0]["x"][0]
        session = dict(cfg=dict(w=row["w"], m=m, L=L, u=1, long=False), ev=ev, scale=2.0 ** rng.choice((0, -4, 30)), object=make(row["w"], m, L, rng.choice(DOUBLE_FORMS)))
        check(ctx, session, results, "replayed behaviour differs")
        ctx.validated += 1
        ctx.count("histories replayed")
    ctx.sample(rows[len(rows) // 2])
    sessions = [random_session(rng, n) for n in range(ctx.pick(400, 5000))]
    for session, results in zip(sessions, ctx.oracle("GoertzelOracle", sessions)):
        check(ctx, session, results, "output is the windowed transform of exactly the window's samples")
    ctx.sample({k: v for k, v in sessions[0].items() if k != "object"})
    from diamondback import GoertzelFilter

    for f in (1.0001, -1.0001, 2, -5.0, float("inf")):
        ctx.expect(bool(call(GoertzelFilter, numpy.ones(4), f).error), "a frequency out of range is rejected", dict(frequency=f))
        o = GoertzelFilter(numpy.ones(4), 0.25)
        ctx.expect(bool(call(setattr, o, "frequency", f).error) and o.frequency == 0.25, "a frequency out of range is rejected", dict(frequency=f, setter=True))


def random_session(rng, n):
    long = n % 12 == 0
    L = rng.choice((2, 4, 6, 8, 10, 12, 16, 20, 64)) if not long else rng.choice((16, 64, 256, 360, 1000, 1024, 2048))
    N = rng.choice((1, 2, 3, 4, 5, 7, 8, 12, 16)) if not long else rng.choice((32, 50, 64, 100, 127, 200, 256, 300, 512, 600, 1024, 1200))
    real = rng.random() < 0.5
    w = gaussians(rng, N, 5, True, rng.choice(("noise", "constant", "sparse")) if not long else rng.choice(("noise", "constant")))
    if all(v == [0, 0] for v in w):
        w[rng.randrange(N)] = [3, 0]
    m = rng.randrange(L)
    total = N * (rng.randint(1, 5) if N < 400 else rng.randint(1, 2)) + rng.choice((0, 0, 1, N - 1, N // 2))
    ev, k = [], 0
    chunks = partition(rng, total)
    for c in chunks:
        # Frequency changes only between windows: split a call at the boundary.
        if k % N == 0 and rng.random() < 0.25:
            ev.append(dict(op="frequency", m=rng.randrange(L), x=[]))
        ev.append(dict(op="filter", x=gaussians(rng, c, 9, real), form=form_of(rng, True) if real else rng.choice(("complex128", "complex64"))))
        k += c
    return dict(cfg=dict(w=w, m=m, L=L, u=2 if real else 1, long=long), ev=ev, scale=2.0 ** rng.choice((0, 0, -9, 20, -70, 200)), object=make(w, m, L, rng.choice(DOUBLE_FORMS)))
