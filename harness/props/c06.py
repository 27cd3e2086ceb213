"""C06 derivative filters: exact on polynomials."""

from common import *

PAIRS = ((1, 1), (1, 2), (1, 4), (2, 2), (2, 4), (2, 6), (2, 8), (3, 4), (3, 6), (3, 8))
K = 144


def make(d, o):
    from diamondback import DerivativeFilter

    return call(DerivativeFilter, d, o)


def apply(obj, e, scale, form):
    if e["op"] in ("filter", "learn"):
        o = call(obj.filter, signal_of(e["x"], scale, form))
        return (pairs_of(o.value, scale / K), "") if not o.error else ([], o.error)
    o = call(obj.reset, scalar_of(e["x"][0], scale, form))
    return [], o.error or ""


def session(rng, pair, huge=False):
    cfg = dict(derivative=pair[0], order=pair[1])
    trace = dict(cfg=cfg, ev=[])
    scale = 2.0 ** rng.choice((0, 0, -4, 13, -60, 200))
    a = make(*pair)
    x = [[1, 0]] + [[0, 0]] * (pair[1] + rng.randint(2, 5))
    e = dict(op="learn", x=x, y=[], e=a.error or "")
    if not a.error:
        e["y"], e["e"] = apply(a.value, e, scale, form_of(rng))
    trace["ev"].append(e)
    b = make(*pair)
    if a.error or b.error:
        return trace
    mag = rng.choice((2, 100, 1000))
    for size in lengths(rng) if huge else [None] * rng.randint(2, 8):
        if rng.random() < 0.2:
            e = dict(op="reset", x=[gauss(rng, mag, rng.random() < 0.7)])
        else:
            e = dict(op="filter", x=gaussians(rng, size or rng.choice((1, 1, 2, 4, 9, 30)), mag, rng.random() < 0.7))
        e["y"], e["e"] = apply(b.value, e, scale, form_of(rng))
        trace["ev"].append(e)
    return trace


def run(ctx):
    rng = ctx.rng
    rows = ctx.explore("DerivativeMC", dict(Span=ctx.pick("{-1, 0, 2}", "{-3, -1, 0, 2, 5}"), Starts=ctx.pick("{-2, 0}", "{-9, -2, 0, 4}")),
                       invariants=("StencilsExact", "ExactOnPolynomials"))
    for row in rows:
        d, o = row["pair"]
        f = make(d, o)
        if not ctx.expect(not f.error, "construction raised an error", lambda: dict(pair=row["pair"], observed=repr(f))):
            continue
        x = [[v, 0] for v in row["x"]]
        y, k = [], 0
        for m in partition(rng, len(x)):
            v, err = apply(f.value, dict(op="filter", x=x[k:k + m]), 1.0, form_of(rng))
            y += v
            k += m
        want = [row["want"] * K, 0]
        ctx.expect(len(y) == len(x) and all(v == want for v in y[o:]), "exact on polynomials",
                   lambda: dict(pair=row["pair"], polynomial=row["poly"], start=row["n0"], expected=row["want"], observed=[v[0] / K for v in y]))
        ctx.validated += 1
        ctx.count("polynomials replayed")
    ctx.sample(rows[len(rows) // 2])
    traces = [session(rng, PAIRS[n % len(PAIRS)]) for n in range(ctx.pick(200, 2000))]
    traces += [session(rng, PAIRS[n % len(PAIRS)], True) for n in range(ctx.pick(30, 300))]
    bad = [(d, o) for d in range(-1, 6) for o in range(-1, 12) if (d, o) not in PAIRS]
    traces.append(dict(cfg=dict(derivative=1, order=1), ev=[dict(op="reject", x=list(p), y=[], e=make(*p).error or "") for p in bad]))
    ctx.count("rejected pairs", len(bad))
    ctx.count("calls recorded", sum(len(t["ev"]) for t in traces))
    ctx.sample(traces[0])
    ctx.judge("DerivativeTrace", traces, dict(InitOf="<- DInit", StepOf="<- DStep"))
