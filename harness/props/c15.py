"""C15 Polyphase rate filter."""

from common import *


def exact(p):
    return p & (p - 1) == 0


def match(bank, y, items, taken, strict, mag):
    """Matches outputs with those of the specification; taken holds whether the output due next may have been produced early.

    Returns the possible values of taken afterwards, none if the outputs are not those of the specification.
    """

    value = [[float(numpy.dot(bank[b], v["w"])) for b in ((v["b"], v["b"] - 1) if v["tie"] and v["b"] else (v["b"],))] for v in items]
    here = {(0, t) for t in taken}
    for v, u in zip(items, value):
        after = set()
        for pos, t in here:
            hit = pos < len(y) and any(close(y[pos], w, 1e-9, mag) for w in u)
            if v["kind"] == "early":
                after.add((pos, False))
                if hit and not strict:
                    after.add((pos + 1, True))
            elif v["kind"] == "due" and t:
                after.add((pos, False))
            elif hit:
                after.add((pos + 1, False))
        here = after
    return {t for pos, t in here if pos == len(y)}


def run_session(ctx, bank, cfg, ev, results, rng, clause):
    from diamondback import PolyphaseRateFilter

    o = call(PolyphaseRateFilter, cfg["p"] / cfg["q"])
    if not ctx.expect(not o.error, "construction raised an error", lambda: dict(cfg=cfg, observed=repr(o))):
        return
    p, q = cfg["p"], cfg["q"]
    scale = 2.0 ** rng.choice((0, 0, -7, 25, -60, 150))
    taken = {False}
    for k, (e, ys) in enumerate(zip(ev, results)):
        form = rng.choice([f for f in DOUBLE_FORMS if not f.startswith("complex")])
        if e["op"] == "filter":
            r = call(o.value.filter, signal_of([[v, 0] for v in e["x"]], scale, form))
            good = not r.error and numpy.ndim(r.value) == 1 and not numpy.iscomplexobj(r.value)
            if good:
                y = [float(v) / scale for v in numpy.asarray(r.value)]
                mag = max([abs(v) for u in ys for v in u["w"]] + [1.0])
                taken = match(bank, y, ys, taken, exact(p), mag)
                good = bool(taken)
        elif e["op"] == "rate":
            r = call(setattr, o.value, "rate", e["x"][0] / e["x"][1])
            good = not r.error
            if e["x"][0] * q != e["x"][1] * p:
                taken = {False}
            p, q = e["x"]
        elif e["op"] == "bad":
            r = call(setattr, o.value, "rate", e["x"][0] / 10.0)
            good = bool(r.error)
        elif e["op"] == "state":
            # The first element is a place for the next sample.
            v = [a * scale for a in e["x"]]
            r = call(setattr, o.value, "s", v if rng.random() < 0.5 else numpy.array(v))
            good = not r.error
        else:
            r = call(o.value.reset, e["x"][0] * scale)
            good = not r.error
        if not ctx.expect(good, clause, lambda: dict(cfg=cfg, history=ev[max(0, k - 8): k + 1], call=k, scale=scale, form=form, observed=repr(r),
                                                     expected=[(v["kind"], v["b"], float(numpy.dot(bank[v["b"]], v["w"]))) for v in ys])):
            return
        ctx.count("calls compared")


def run(ctx):
    from diamondback import PolyphaseRateFilter

    rng = ctx.rng
    o = call(PolyphaseRateFilter, 1.0)
    b = call(lambda: numpy.array(o.value.b, float))
    if not ctx.expect(not b.error and b.value.shape == (256, 15), "the bank has 256 filters", lambda: dict(observed=repr(b))):
        return
    bank = b.value
    ctx.expect(bool((abs(bank.sum(1) - 1.0) < 1e-9).all()), "every filter of the bank has unit gain at zero frequency", lambda: dict(sums=bank.sum(1).tolist()[:20]))
    delay = (bank * numpy.arange(15)).sum(1) + numpy.arange(256) / 256.0
    ctx.expect(bool((abs(delay - delay.mean()) < 0.01).all()), "the filters of the bank delay by one fraction after another", lambda: dict(delay=delay.tolist()[:20]))
    rows = ctx.explore("PolyphaseRateMC", dict(Depth=ctx.pick(4, 5), Rates="<- MCRates", Others="<- MCOthers"), invariants=("CountIsCeil", "Consumed"), workers=ctx.pick(8, 1))
    for row in rows:
        init = row["ev"][0]
        cfg = dict(p=init["x"][0], q=init["x"][1])
        ev = [dict(op=e["op"], x=e["x"]) for e in row["ev"][1:]]
        run_session(ctx, bank, cfg, ev, [e["y"] for e in row["ev"][1:]], rng, "replayed behaviour differs")
        ctx.validated += 1
        ctx.count("histories replayed")
    ctx.sample(dict(ev=[dict(op=e["op"], x=e["x"], filters=[v["b"] for v in e["y"]]) for e in rows[len(rows) // 2]["ev"]]))
    sessions = []
    for n in range(ctx.pick(200, 3000)):
        rates = lambda: rng.choice(((1, 1), (2, 1), (1, 2), (3, 4), (8, 3), (16, 5), (64, 63), (64, 65), (32, 1), (256, 1), (128, 127), (1, 7), (3, 1), (10, 9), (5, 3), (7, 10), (9, 1)))
        p, q = rates()
        cfg, ev = dict(p=p, q=q), []
        long = n % 7 == 0
        for _ in range(rng.randint(2, 9)):
            r = rng.random()
            if r < 0.1:
                p2, q2 = rates()
                change = rng.random()
                if change < 0.45:
                    p, q = p2, q2
                elif change < 0.75 and p < 100 and p < 200 * q:
                    # Hardly another rate, and another all the same.
                    c = rng.choice((1000, 5000, 16384))
                    p, q = rng.choice(((p * (c + 1), q * c), (p * c, q * (c + 1))))
                ev.append(dict(op="rate", x=[p, q]))
            elif r < 0.15:
                ev.append(dict(op="bad", x=[rng.choice((-1, -50, 2561, 9000))]))
            elif r < 0.25:
                ev.append(dict(op="reset", x=[rng.randint(-9, 9)]))
            elif r < 0.3:
                ev.append(dict(op="state", x=[rng.randint(-50, 50) for _ in range(15)]))
            else:
                m = rng.choice((1, 1, 1, 2, 3, 5)) if not long else rng.choice((17, 40))
                m = min(m, max(1, 200 * q // p))
                kind = rng.choice(("noise", "noise", "constant", "ramp", "impulse"))
                ev.append(dict(op="filter", x=[v[0] for v in gaussians(rng, m, 50, True, kind)]))
        sessions.append(dict(cfg=cfg, ev=ev))
    for n in range(ctx.pick(30, 300)):
        p, q = rng.choice(((1, 1), (2, 1), (1, 2), (3, 4), (8, 3), (64, 63), (64, 65), (128, 127), (255, 256), (1, 7), (1, 100), (1, 256), (1, 1000), (5, 3), (16, 1), (256, 1), (200, 1)))
        ev = []
        for m in lengths(rng):
            if rng.random() < 0.2:
                ev.append(dict(op="reset", x=[rng.randint(-9, 9)]))
            ev.append(dict(op="filter", x=[v[0] for v in gaussians(rng, max(1, min(m, 5000 * q // p)), 50, True)]))
        sessions.append(dict(cfg=dict(p=p, q=q), ev=ev))
    for session, results in zip(sessions, ctx.oracle("PolyphaseRateOracle", sessions, workers=1)):
        run_session(ctx, bank, session["cfg"], session["ev"], results, rng, "outputs are the bank applied at multiples of 1 / rate")
    ctx.sample(sessions[0])
    # A constant signal at the reset value is reproduced exactly.
    for p, q in ((1, 1), (7, 3), (1, 5), (100, 7), (256, 1)):
        o = call(PolyphaseRateFilter, p / q)
        r = call(lambda: (o.value.reset(3.5), o.value.filter(numpy.full(2 * q, 3.5)))[1])
        ctx.expect(not r.error and len(r.value) in (2 * p, 2 * p + 1) and close_all(r.value, [3.5] * len(r.value)), "a constant is reproduced after a reset", lambda: dict(rate=(p, q), observed=repr(r)[:200]))
    for rate in (-0.001, 256.01, -5, 1000.0):
        ctx.expect(bool(call(PolyphaseRateFilter, rate).error), "a rate out of range is rejected", dict(rate=rate))
