"""C14 Polynomial rate filter."""

from common import *


def agrees(y, want, p, order, scale, mag):
    """Whether an output is that of the specification; at integer times of an inexact 1 / rate either adjacent parabola is."""

    try:
        y = numpy.asarray(y)
        if y.ndim != 1 or len(y) not in want["c"] or numpy.iscomplexobj(y):
            return False
    except Exception:
        return False
    exact = p & (p - 1) == 0
    tol = 1e-8
    for v, (a, b) in zip(y, want["y"]):
        u = scale / want["d"]
        if not (close(v, a * u, tol, mag * scale) or (not exact and order == 2 and close(v, b * u, tol, mag * scale))):
            return False
    return True


def run(ctx):
    from diamondback import PolynomialRateFilter

    rng = ctx.rng
    rows = ctx.explore("PolynomialRateMC", dict(Values="{-1, 0, 2}", Lengths=ctx.pick("2..4", "2..6"), Rates="<- MCRatesNonzero"),
                       invariants=("LinearExact", "QuadraticExact", "Interpolates", "LeastSquares"))
    rows += ctx.explore("PolynomialRateMC", dict(Values="{-4, -1, 1, 4, 11, 25}" if ctx.thorough else "{-4, 1, 11}", Lengths=ctx.pick("{4}", "{4, 5}"), Rates="<- MCRatesNonzero"),
                        invariants=("LinearExact", "QuadraticExact", "Interpolates", "LeastSquares"), label="larger values")
    filters = {}
    for row in rows:
        key = (row["p"], row["q"], row["order"])
        if key not in filters:
            filters[key] = call(PolynomialRateFilter, row["p"] / row["q"], row["order"])
            ctx.expect(not filters[key].error, "construction raised an error", lambda: dict(key=key, observed=repr(filters[key])))
        if filters[key].error:
            continue
        scale, form = 2.0 ** rng.choice((0, 0, -8, 30, -40, -100, 200)), rng.choice([f for f in DOUBLE_FORMS if not f.startswith("complex")])
        r = call(filters[key].value.filter, signal_of([[v, 0] for v in row["x"]], scale, form))
        ctx.expect(not r.error and agrees(r.value, row, row["p"], row["order"], scale, 30), "replayed behaviour differs",
                   lambda: dict(p=row["p"], q=row["q"], order=row["order"], x=row["x"], observed=repr(r), counts=row["c"],
                                expected=[v[0] / row["d"] for v in row["y"]], scale=scale, form=form))
        ctx.validated += 1
        ctx.count("signals replayed")
    ctx.sample(rows[len(rows) // 2])
    sessions = []
    for n in range(ctx.pick(300, 4000)):
        rates = lambda: rng.choice(((1, 1), (2, 1), (1, 2), (3, 1), (1, 3), (5, 2), (2, 5), (4, 3), (3, 4), (7, 8), (10, 9), (9, 10), (11, 4), (17, 5), (16, 3), (25, 1), (0, 1)))
        p, q = rates()
        ev = []
        for _ in range(rng.randint(1, 5)):
            r = rng.random()
            if r < 0.15:
                ev.append(dict(op="rate", x=list(rates()) if rng.random() < 0.7 else [-1, rng.choice((1, 50))]))
            elif r < 0.3:
                ev.append(dict(op="order", x=[rng.choice((1, 2, 3, 0, -1))]))
            elif r < 0.4:
                ev.append(dict(op="filter", dim=rng.choice((1, 2)), x=[rng.randint(-9, 9)] * rng.choice((0, 1))))
            else:
                ev.append(dict(op="filter", dim=1, x=[v[0] for v in gaussians(rng, rng.choice((2, 2, 3, 4, 5, 8, 20)), rng.choice((3, 200)), True)]))
        sessions.append(dict(cfg=dict(p=p, q=q, order=rng.choice((1, 2, 3))), ev=ev))
    for n in range(ctx.pick(40, 400)):
        order = rng.choice((1, 1, 2, 3))
        rates = ((1, 1), (2, 1), (1, 2), (3, 1), (1, 3), (2, 5), (4, 3), (3, 4), (9, 10), (1, 100), (1, 255), (3, 1000)) + (((100, 1), (256, 1), (255, 2), (1000, 3)) if order == 1 else ((25, 1), (17, 5)))
        p, q = rng.choice(rates)
        m = rng.choice([v for v in HUGE if v * p / q < 12000] or [40])
        m = min(m, 12000 * q // p)
        ev = [dict(op="filter", dim=1, x=[v[0] for v in gaussians(rng, k, rng.choice((3, 200)), True)]) for k in rng.choice(([m], [3, m], [m, 2]))]
        sessions.append(dict(cfg=dict(p=p, q=q, order=order), ev=ev))
    for n in range(ctx.pick(12, 100)):
        # Polynomials of higher order evaluated many times between two samples.
        p, q = rng.choice(((64, 1), (65, 1), (80, 1), (100, 1), (128, 1), (129, 2), (100, 3)))
        ev = [dict(op="filter", dim=1, x=[v[0] for v in gaussians(rng, rng.randint(2, 6), 3, True)]) for _ in range(2)]
        sessions.append(dict(cfg=dict(p=p, q=q, order=rng.choice((2, 3))), ev=ev))
    for n in range(ctx.pick(160, 1600)):
        # The number of outputs is hardly more or hardly less than a whole number and a half.
        m, q = rng.randint(2, 12), rng.choice((10007, 20011, 20011))
        v = (rng.randint(0, 2 * m) + 0.5) * q / rng.choice((m, m + 1))
        p = rng.choice((int(v), int(v), int(v) + 1, int(v) - 1))
        sessions.append(dict(cfg=dict(p=p, q=q, order=1), ev=[dict(op="filter", dim=1, x=[v[0] for v in gaussians(rng, m, rng.choice((3, 200)), True)])]))
    # Rate zero is modelled as a count of zero.
    for s in sessions:
        for c in [s["cfg"]] + [e for e in s["ev"] if e["op"] == "rate"]:
            pq = (c["p"], c["q"]) if "p" in c else tuple(c["x"])
            if pq[0] == 0:
                s["zero"] = True
    plain = [s for s in sessions if "zero" not in s]
    for session, results in zip(plain, ctx.oracle("PolynomialRateOracle", plain)):
        cfg = session["cfg"]
        o = call(PolynomialRateFilter, cfg["p"] / cfg["q"], cfg["order"])
        if not ctx.expect(not o.error, "construction raised an error", lambda: dict(cfg=cfg, observed=repr(o))):
            continue
        order, p = cfg["order"], cfg["p"]
        for k, (e, want) in enumerate(zip(session["ev"], results)):
            if e["op"] == "filter":
                scale, form = 2.0 ** rng.choice((0, 0, -8, 30, -40, -100, 200)), rng.choice([f for f in DOUBLE_FORMS if not f.startswith("complex")])
                x = signal_of([[v, 0] for v in e["x"]], scale, form)
                if e["dim"] == 2:
                    x = numpy.array([x, x])
                r = call(o.value.filter, x)
                good = bool(r.error) != want["ok"] and (not want["ok"] or agrees(r.value, want, p, order, scale, 400))
                clause = "outputs are the local polynomial at multiples of 1 / rate" if want["ok"] else "a signal of fewer than two samples is rejected"
            else:
                scale = form = None
                r = call(setattr, o.value, e["op"], e["x"][0] / e["x"][1] if e["op"] == "rate" else e["x"][0])
                good = bool(r.error) != want["ok"]
                clause = "settings in range are accepted, others are rejected"
                if want["ok"] and e["op"] == "rate":
                    p = e["x"][0]
                elif want["ok"]:
                    order = e["x"][0]
            if not ctx.expect(good, clause, lambda: dict(cfg=cfg, history=session["ev"][: k + 1], scale=scale, form=form, observed=repr(r),
                                                         expected=[v[0] / want["d"] for v in want.get("y", [])])):
                break
            ctx.count("calls compared")
    for order in (1, 2, 3):
        o = call(PolynomialRateFilter, 0.0, order)
        r = call(o.value.filter, [1.0, 2.0, 5.0]) if not o.error else o
        ctx.expect(not r.error and len(r.value) == 0, "a rate of zero produces no output", lambda: dict(order=order, observed=repr(r)))
    for rate, order in ((-0.1, 1), (-3, 3), (1.0, 0), (1.0, -2)):
        ctx.expect(bool(call(PolynomialRateFilter, rate, order).error), "arguments out of range are rejected", dict(rate=rate, order=order))
    ctx.sample(plain[0])
