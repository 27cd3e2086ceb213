"""C07 integral filters: running sums smoothed by quadrature weights."""

from common import *

K = 360


def make(order):
    from diamondback import IntegralFilter

    return call(IntegralFilter, order)


def apply(obj, e, scale, form):
    o = call(obj.filter, signal_of(e["x"], scale, form))
    return (pairs_of(o.value, scale / K), "") if not o.error else ([], o.error)


def session(rng, order, n, huge=False):
    trace = dict(cfg=dict(order=order), ev=[])
    scale = 2.0 ** rng.choice((0, 0, -4, 13, -60, 200))
    a, b = make(order), make(order)
    e = dict(op="learn", x=[[1, 0]] + [[0, 0]] * (order + rng.choice((2, 5, 60))), y=[], e=a.error or "")
    if not a.error:
        e["y"], e["e"] = apply(a.value, e, scale, form_of(rng))
    trace["ev"].append(e)
    if a.error or b.error:
        return trace
    mag = rng.choice((2, 30, 300))
    for size in lengths(rng) if huge else [None] * rng.randint(2, 8):
        m = size if size else rng.choice((1, 1, 2, 4, 9, 30)) if n % 9 else rng.choice((100, 250))
        e = dict(op="filter", x=gaussians(rng, m, mag, rng.random() < 0.7))
        e["y"], e["e"] = apply(b.value, e, scale, form_of(rng))
        trace["ev"].append(e)
    return trace


def run(ctx):
    rng = ctx.rng
    rows = ctx.explore("IntegralMC", dict(Depth=ctx.pick(4, 6), Chunks="<- MCChunks"),
                       invariants=("WeightsSound", "RunningSum", "HoldsTotal", "ConstantGrowsByItself"))
    for row in rows:
        f = make(row["order"])
        if not ctx.expect(not f.error, "construction raised an error", lambda: dict(order=row["order"], observed=repr(f))):
            continue
        scale = 2.0 ** rng.choice((0, 0, 5, -20))
        for k, e in enumerate(row["ev"]):
            y, err = apply(f.value, e, scale, form_of(rng))
            if not ctx.expect(not err and y == e["y"], "replayed behaviour differs",
                              lambda: dict(order=row["order"], history=row["ev"][: k + 1], observed=y, error=err, unit=scale / K)):
                break
        ctx.validated += 1
        ctx.count("histories replayed")
    ctx.sample(rows[len(rows) // 2])
    traces = [session(rng, n % 5, n) for n in range(ctx.pick(200, 2000))]
    traces += [session(rng, n % 5, 1, True) for n in range(ctx.pick(25, 300))]
    bad = [-3, -1, 5, 6, 7, 10, 100]
    traces.append(dict(cfg=dict(order=0), ev=[dict(op="reject", x=[o], y=[], e=make(o).error or "") for o in bad]))
    ctx.count("calls recorded", sum(len(t["ev"]) for t in traces))
    ctx.count("samples recorded", sum(len(e["x"]) for t in traces for e in t["ev"]))
    ctx.sample(traces[0])
    ctx.judge("IntegralTrace", traces, dict(InitOf="<- NInit", StepOf="<- NStep"))
