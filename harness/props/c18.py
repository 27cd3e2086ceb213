"""C18 Gaussian mixture model."""

import math

from common import *
from props import c17


def maker(order, index=None):
    def make(r):
        from diamondback import GaussianMixtureModel

        kw = dict(order=order, regularize=r[0] / r[1])
        if index:
            kw["index"] = index
        return call(GaussianMixtureModel, **kw)

    return make


def separated(rng, order):
    """A training set whose classes consist of clusters far apart, each labelled by its component."""

    d = rng.choice((1, 2))
    sites = [[18 * a for a in s] for s in ([[-2], [-1], [0], [1], [2]] if d == 1 else [[-1, -1], [-1, 1], [1, -1], [1, 1], [0, 0]])]
    if order > len(sites):
        d, sites = 2, [[18 * a, 18 * b] for a in (-2, -1, 0, 1) for b in (-1, 0, 1, 2)]
    names = rng.sample((-4, 0, 1, 2, 7, 300), rng.choice((2, 2, 3)))
    xs, ys, cs = [], [], []
    for c in names:
        uneven = rng.random() < 0.4 and order < 6
        for k, site in enumerate(rng.sample(sites, order)):
            # An uneven class has a few samples in one cluster, and a pattern that is repeated in the others.
            n = rng.choice((2, 3, 4, 5)) if not uneven else 2
            times = rng.choice((10, 20, 35)) if uneven and k else 1
            shift = [rng.choice((-1, 0, 0, 1)) for _ in range(d)]
            for _ in range(n):
                xs += [[a + b + rng.choice((-1, 0, 0, 1)) for a, b in zip(site, shift)]] * times
                ys += [c] * times
                cs += [k + 1] * times
    keep = list(range(len(xs)))
    rng.shuffle(keep)
    return [xs[k] for k in keep], [ys[k] for k in keep], [cs[k] for k in keep], d, sites


def mixture_session(rng, n):
    order = rng.choice((2, 2, 3)) if n % 6 else rng.choice((9, 10, 12, 14))
    ev, last = [], None
    for _ in range(rng.randint(1, 3)):
        xs, ys, cs, d, sites = separated(rng, order)
        kind = rng.choice(("", "", "mismatch", "float", "few")) if last else ""
        if kind == "few":
            lone = max(ys) + 1
            xs, ys, cs = xs + [xs[0]], ys + [lone], cs + [1]
        ev.append(dict(op="fit", x=xs, y=ys, c=cs, kind=kind))
        if not kind:
            last = (sorted(set(ys)), d, sites)
        labels, d, sites = last
        for _ in range(rng.randint(1, 2)):
            ev.append(dict(op="predict", labels=labels, kind="", c=[], y=[],
                           x=[[a + rng.choice((-2, -1, 0, 0, 1, 2)) for a in rng.choice(sites)] for _ in range(rng.choice((1, 3, 6)))]))
    return dict(cfg=dict(order=order, r=list(rng.choice(((1, 10), (1, 1), (1, 2))))), ev=ev)


def attempted(ctx, rng, session, results):
    """Runs a session; the clause that fails and what was observed, or nothing."""

    cfg = session["cfg"]
    o = maker(cfg["order"])(cfg["r"])
    if o.error:
        return "construction raised an error", dict(cfg=cfg, observed=repr(o))
    for k, (e, want) in enumerate(zip(session["ev"], results)):
        e = c17.event(rng, o.value, dict(e))
        detail = dict(cfg=cfg, event_number=k, event=e, expected=want)
        if e["op"] == "fit":
            if bool(e["e"]) != bool(e["kind"]):
                return "an invalid fit is rejected, a valid one accepted", detail
        elif e["e"] or len(e["p"]) != len(e["x"]):
            return "one prediction per sample", detail
        else:
            for row, classes in zip(e["p"], want):
                score = {c: sum(w / n * math.exp(-0.5 * a / b) for w, n, a, b in parts) for c, parts in zip(e["labels"], classes)}
                if sorted(row) != sorted(score):
                    return "a prediction lists every class once", detail
                s = [score[c] for c in row]
                if not all(u >= v * (1.0 - 1e-3) - 1e-250 for u, v in zip(s, s[1:])):
                    return "a prediction is ordered by mixture likelihood", detail
                ctx.count("rankings compared")
    return None


def run(ctx):
    rng = ctx.rng
    # A single component per class: the specification of the Gaussian model, up to the range of the exponential.
    numpy.random.seed(ctx.seed)
    traces = []
    for k in range(ctx.pick(120, 1500)):
        t = single(rng)
        traces.append(t)
    ctx.count("calls recorded", sum(len(t["ev"]) for t in traces))
    ctx.sample(traces[0])
    ctx.judge("GaussianTrace", traces, dict(InitOf="<- GInit", StepOf="<- MStep"))
    c17.large(ctx, maker(1, 50), 1300.0, 1e-4, ctx.pick(40, 400))
    # Several components per class.
    sessions = [mixture_session(rng, n) for n in range(ctx.pick(60, 800))]
    for session, results in zip(sessions, ctx.oracle("MixtureOracle", sessions)):
        cfg = session["cfg"]
        # The fit of scikit-learn may miss the clusters; then another is tried.
        for attempt in range(5 if cfg["order"] < 6 else 25):
            failed = attempted(ctx, rng, session, results)
            if not failed:
                break
            ctx.count("fits tried again")
        ctx.expect(not failed, *(failed or ("", None)))
    ctx.sample({**sessions[0], "ev": sessions[0]["ev"][:2]})
    from diamondback import GaussianMixtureModel

    for kw in (dict(order=0), dict(order=-3), dict(index=0), dict(index=-1), dict(regularize=-0.1)):
        ctx.expect(bool(call(GaussianMixtureModel, **kw).error), "arguments out of range are rejected", dict(kw))
    ctx.notes["independence"] = "components are known because the clusters of a class are at least ten standard deviations apart"


def single(rng):
    """A session of a single component per class, where every class has at least two samples."""

    original = c17.dataset

    def dataset(rng, d=None, small=False):
        xs, ys, d, mag = original(rng, d)
        lone = [c for c in set(ys) if ys.count(c) < 2]
        for c in sorted(lone):
            k = ys.index(c)
            xs.append(list(xs[k]))
            ys.append(c)
        return xs, ys, d, mag

    c17.dataset = dataset
    try:
        return c17.session(rng, maker(1, rng.choice((None, 1, 50))))
    finally:
        c17.dataset = original
