"""C02 FIR filter: convolution, delay line, reset."""

from common import *


def make(cfg, scale=1.0, form="float64", sform="float64"):
    from diamondback import FirFilter

    b = signal_of(cfg["b"], 1.0, form)
    kw = dict(b=b)
    if cfg["s"]:
        kw["s"] = signal_of(cfg["s"], scale, sform)
    return call(FirFilter, **kw)


def apply(obj, e, scale, form):
    """Applies an event and observes its result."""

    if e["op"] == "filter":
        o = call(obj.filter, signal_of(e["x"], scale, form))
        return (pairs_of(o.value, scale), "") if not o.error else ([], o.error)
    if e["op"] == "reset":
        o = call(obj.reset, scalar_of(e["x"][0], scale, form))
    else:
        import numpy

        o = call(setattr, obj, "b", numpy.array(signal_of(e["x"], 1.0, form)))
    return [], o.error or ""


def run(ctx):
    rng = ctx.rng
    # Every history of the specification, replayed.
    rows = ctx.explore("FirMC", dict(Depth=ctx.pick(3, 4), Chunks="<- MCChunks", Resets="<- MCResets", Configs="<- MCConfigs"),
                       invariants=("OutputIsConvolution", "StateIsRecentPast", "SteadyAfterReset"))
    for row in rows:
        scale, form, bform, sform = 2.0 ** rng.choice((0, 0, -3, 9, -40, 60)), form_of(rng), form_of(rng), form_of(rng)
        o = make(row["cfg"], scale, bform, sform)
        if not ctx.expect(not o.error, "construction raised an error", lambda: dict(cfg=row["cfg"], form=bform, observed=repr(o))):
            continue
        for k, e in enumerate(row["ev"]):
            y, err = apply(o.value, e, scale, form)
            if not ctx.expect(not err and y == e["y"], "replayed behaviour differs",
                              lambda: dict(cfg=row["cfg"], history=row["ev"][: k + 1], observed=y, error=err, form=form, bform=bform, scale=scale)):
                break
        ctx.validated += 1
        ctx.count("histories replayed")
        ctx.count("calls replayed", len(row["ev"]))
    ctx.sample(rows[len(rows) // 2])
    # Random sessions of the real code, judged by TLC.
    traces = []
    for n in range(ctx.pick(260, 2500)):
        traces.append(session(rng, n))
    traces += [session(rng, 1, True) for _ in range(ctx.pick(40, 300))]
    ctx.count("calls recorded", sum(len(t["ev"]) for t in traces))
    ctx.count("samples recorded", sum(len(e["x"]) for t in traces for e in t["ev"] if e["op"] == "filter"))
    ctx.sample(traces[0])
    ctx.judge("FirTrace", traces, dict(InitOf="<- FInit", StepOf="<- FStep"))


def session(rng, n, huge=False):
    long = n % 13 == 0
    real_b, real_x = rng.random() < 0.7, rng.random() < 0.7
    order = rng.choice((0, 1, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 63)) if not long else rng.choice((2, 3, 96, 150))
    plan = []
    if huge:
        # Long signals, or long filters.
        order = rng.choice((0, 1, 2, 5, 12)) if rng.random() < 0.6 else rng.choice((127, 128, 200, 255, 256, 257, 300, 511, 512, 600))
        plan = lengths(rng) if order < 20 else [rng.choice((1, 5, 40, 90)) for _ in range(4)]
    mag = rng.choice((1, 3, 50, 1000))
    b = gaussians(rng, order + 1, rng.choice((1, 4, 20)), real_b, rng.choice(("noise", "sparse", "noise")))
    s = gaussians(rng, rng.choice((0, 0, order + 1, max(1, order), order + 2, 1)), mag, real_x or rng.random() < 0.8, "noise")
    cfg = dict(b=b, s=s)
    scale = 2.0 ** rng.choice((0, 0, 0, -1, -10, -45, 12, 40, -200, 200))
    forms = dict(b=form_of(rng), s=form_of(rng))
    trace = dict(cfg=cfg, ev=[], note=dict(forms=forms, scale=scale))
    o = make(cfg, scale, forms["b"], forms["s"])
    if o.error:
        trace["ev"].append(dict(op="filter", x=[], y=[], e=o.error))
        return trace
    form = form_of(rng)
    length = max(len(b), len(s))
    for turn in range(len(plan) if huge else rng.randint(3, 9)):
        if rng.random() < 0.5:
            form = form_of(rng)
        real = real_x if rng.random() < 0.85 else not real_x
        r = rng.random()
        if huge or r < 0.75:
            m = plan[turn] if huge else rng.choice((1, 1, 2, 3, 5, 8, 20, 50)) if not long else rng.choice((40, 120, 300))
            if long and not huge and order > 90:
                m = min(m, 60)
            e = dict(op="filter", x=gaussians(rng, m, mag, real))
        elif r < 0.95:
            e = dict(op="reset", x=[gauss(rng, mag, real)])
        else:
            e = dict(op="coefficient", x=gaussians(rng, length, 5, real_b, "noise"))
        e["y"], e["e"] = apply(o.value, e, scale, form)
        trace["ev"].append(e)
    return trace
