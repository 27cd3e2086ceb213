"""C03 IIR filter: difference equation, reset at steady state, rejected leading coefficient."""

from common import *

CYCLOTOMIC = ([1, -1], [1, 1], [1, 1, 1], [1, 0, 1], [1, -1, 1], [1, 1, 1, 1, 1], [1, 0, 0, 0, 1], [1, 0, -1, 0, 1])


def make(cfg, forms=("float64", "float64")):
    from diamondback import IirFilter

    kw = {}
    if cfg["a"]:
        kw["a"] = signal_of(cfg["a"], 1.0, forms[0])
    if cfg["b"]:
        kw["b"] = signal_of(cfg["b"], 1.0, forms[1])
    return call(IirFilter, **kw)


def succeed(obj, cfg, n, forms, rng):
    """Another filter of the same coefficients, which continues from the state of this one, with n zeros appended."""

    from diamondback import IirFilter

    def both():
        s = numpy.concatenate((obj.s, numpy.zeros(n)))
        kw = {k: signal_of(cfg[k], 1.0, f) for k, f in zip("ab", forms) if cfg[k]}
        return IirFilter(**kw, s=s if rng.random() < 0.5 else list(s))

    return call(both)


def apply(obj, e, scale, form):
    if e["op"] == "filter":
        o = call(obj.filter, signal_of(e["x"], scale, form))
        return (pairs_of(o.value, scale), "") if not o.error else ([], o.error)
    if e["op"] == "reset":
        o = call(obj.reset, scalar_of(e["x"][0], scale, form))
        return [], o.error or ""
    a = call(setattr, obj, "a", numpy.array(signal_of(e["a"], 1.0, "float64")))
    b = call(setattr, obj, "b", numpy.array(signal_of(e["b"], 1.0, "float64")))
    return [], a.error or b.error or ""


def periodic(rng, limit):
    """A recursive array whose poles are distinct roots of unity, so that exact outputs stay bounded."""

    p = [1]
    for q in rng.sample(CYCLOTOMIC, rng.choice((0, 1, 1, 1, 2, 2, 3))):
        if len(p) + len(q) - 1 <= limit:
            p = [int(v) for v in numpy.convolve(p, q)]
    p += [0] * rng.choice((0, 0, 0, 1, 2))
    return [[0, 0]] + [[-v, 0] for v in p[1:]]


def config(rng):
    if rng.random() < 0.12:
        n = rng.choice((1, 2, 4))
        a = [[0, 0] for _ in range(n)] + [[0, rng.choice((1, -1))]]
    else:
        a = periodic(rng, 9)
    n = rng.choice((1, len(a), len(a), max(1, len(a) - 1), len(a) + 1, len(a) + 3))
    b = gaussians(rng, n, rng.choice((1, 3, 9)), rng.random() < 0.8, rng.choice(("noise", "sparse", "noise")))
    if rng.random() < 0.4 and all(v[1] == 0 for v in a):
        d = 1 - sum(v[0] for v in a)
        if d > 0:
            for v in b:
                v[1] = 0
            b[-1][0] += d - sum(v[0] for v in b)
            if b[0][0] == 1:
                b[0][0] += 1
                b.append([-1, 0])
    return dict(a=a, b=b)


def unity(cfg):
    a, b = sum(v[0] for v in cfg["a"]), sum(v[0] for v in cfg["b"])
    return is_real(cfg["a"]) and is_real(cfg["b"]) and b == 1 - a and cfg["b"][0][0] != 1 and 1 - a > 0


def session(rng, n, huge=False):
    cfg = config(rng)
    long = n % 11 == 0
    wide = n % 17 == 3
    mag = rng.choice((1, 5, 60)) if not wide else 2**25
    if wide:
        cfg = dict(a=[[0, 0], [rng.choice((1, -1)), 0]], b=[[1, 0], [rng.choice((0, 1)), 0]])
    scale = 2.0 ** rng.choice((0, 0, -2, -30, 20, -150, 200))
    forms = (form_of(rng), form_of(rng))
    trace = dict(cfg=cfg, ev=[], note=dict(forms=forms, scale=scale))
    o = make(cfg, forms)
    if o.error:
        trace["ev"].append(dict(op="filter", x=[], y=[], e=o.error))
        return trace
    real, d = rng.random() < 0.7, 1 - sum(v[0] for v in cfg["a"])
    extra = 0
    plan = lengths(rng) if huge else [None] * rng.randint(3, 8)
    for k, size in enumerate(plan):
        form = form_of(rng)
        r = rng.random()
        if k == 3 and r < 0.2 and not wide:
            n_ = max(len(cfg["a"]), len(cfg["b"]))
            other = dict(a=[list(v) for v in cfg["a"]], b=gaussians(rng, n_, 4, is_real(cfg["b"]), "noise"))
            other["a"] += [[0, 0]] * (n_ + extra - len(other["a"]))
            other["b"] += [[0, 0]] * extra
            extra = 0
            cfg = other
            e = dict(op="coefficient", a=other["a"], b=other["b"])
        elif k and r > 0.88:
            e = dict(op="continue", n=rng.choice((0, 0, 1, 5)), y=[])
            extra += e["n"]
            o = succeed(o.value, cfg, max(0, extra + max(len(cfg["a"]), len(cfg["b"])) - len(o.value.s)), forms, rng)
            e["e"] = o.error or ""
            trace["ev"].append(e)
            if o.error:
                return trace
            continue
        elif unity(cfg) and r < 0.35:
            v = gauss(rng, max(1, mag // d), real)
            e = dict(op="reset", x=[[v[0] * d, v[1] * d]])
        else:
            m = size if size else rng.choice((1, 1, 2, 3, 7, 20)) if not long else rng.choice((60, 250))
            x = gaussians(rng, m if not wide else min(m, 6), mag, real)
            last = trace["ev"][-1] if trace["ev"] else None
            if last and last["op"] == "reset" and rng.random() < 0.5:
                x = [list(last["x"][0]) for _ in x]
            e = dict(op="filter", x=x)
        e["y"], e["e"] = apply(o.value, e, scale, form)
        trace["ev"].append(e)
    return trace


def run(ctx):
    rng = ctx.rng
    rows = ctx.explore("IirMC", dict(Depth=ctx.pick(3, 4), Chunks="<- MCChunks", Resets="<- MCResets", Configs="<- MCConfigs"),
                       invariants=("DifferenceEquation", "SteadyAfterReset"))
    for row in rows:
        scale, form, forms = 2.0 ** rng.choice((0, 0, -3, 9, -40, 60)), form_of(rng), (form_of(rng), form_of(rng))
        o = make(row["cfg"], forms)
        if not ctx.expect(not o.error, "construction raised an error", lambda: dict(cfg=row["cfg"], forms=forms, observed=repr(o))):
            continue
        for k, e in enumerate(row["ev"]):
            if e["op"] == "continue":
                o = succeed(o.value, row["cfg"], e["n"], forms, rng)
                y, err = [], o.error or ""
            else:
                y, err = apply(o.value, e, scale, form)
            if not ctx.expect(not err and y == e["y"], "replayed behaviour differs",
                              lambda: dict(cfg=row["cfg"], history=row["ev"][: k + 1], observed=y, error=err, form=form, forms=forms, scale=scale)):
                break
        ctx.validated += 1
        ctx.count("histories replayed")
    ctx.sample(rows[len(rows) // 3])
    # A non-zero leading recursive coefficient is rejected.
    from diamondback import IirFilter

    for a in ([1.0], [1, 0.5], [1e-3, 0, 0], numpy.array([-1.0, 2.0]), [1j, 0.5], [numpy.float64(1e-12), 1], numpy.array([2, 1])):
        for b in ([1.0], [1.0, 2.0, 3.0]):
            o = call(IirFilter, a=a, b=b)
            ctx.expect(o.error == "ValueError", "non-zero leading recursive coefficient is rejected", lambda: dict(a=str(a), b=b, observed=repr(o)))
            ctx.count("rejected constructions")
    traces = [session(rng, n) for n in range(ctx.pick(300, 3000))]
    traces += [session(rng, 1, True) for _ in range(ctx.pick(30, 300))]
    ctx.count("calls recorded", sum(len(t["ev"]) for t in traces))
    ctx.count("resets recorded", sum(e["op"] == "reset" for t in traces for e in t["ev"]))
    ctx.count("samples recorded", sum(len(e["x"]) for t in traces for e in t["ev"] if e["op"] == "filter"))
    ctx.sample(traces[0])
    ctx.judge("IirTrace", traces, dict(InitOf="<- IInit", StepOf="<- IStep"))
