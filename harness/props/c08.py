"""C08 PID filter."""

from common import *


def make(b, form):
    from diamondback import PidFilter

    return call(PidFilter, signal_of(b, 1.0, form))


def apply(obj, e, scale, form):
    if e["op"] == "filter":
        o = call(obj.filter, signal_of(e["x"], scale, form))
        return (pairs_of(o.value, scale), "") if not o.error else ([], o.error)
    if e["op"] == "reset":
        o = call(obj.reset, scalar_of(e["x"][0], scale, form))
    elif e["op"] == "nolimit" or (e["op"] == "limit" and e["x"][0][0] == -1 and not e.get("bad")):
        o = call(setattr, obj, "limit", numpy.inf)
    else:
        v = e["x"][0][0] * scale
        o = call(setattr, obj, "limit", int(v) if form == "ints" and float(v).is_integer() else v)
    return [], o.error or ""


def run(ctx):
    rng = ctx.rng
    rows = ctx.explore("PidMC", dict(Samples="<- MCSamples", Limits=ctx.pick("{-1, 0, 2, 5}", "{-1, 0, 1, 2, 5, 9}"), Gains="<- MCGains", Bound=ctx.pick(12, 30)),
                       invariants=("TypeOK",), properties=("LimitHolds", "AllOrNothing"), constraints=("InBound",),
                       emit=("EmitInit",), emit_actions=("EmitStep",), view="View", label="all reachable states")
    paths, edges = walks(rows, rng, ("b",))
    ctx.count("transitions of the specification", edges)
    for (b,), start, path in paths:
        scale = 2.0 ** rng.choice((0, 0, -3, 10, -50))
        o = make(b, form_of(rng))
        if not ctx.expect(not o.error, "construction raised an error", lambda: dict(b=b, observed=repr(o))):
            continue
        done = [dict(op="limit", x=[[start["limit"], 0]], y=[])]
        ok = not apply(o.value, done[0], scale, "float64")[1]
        ctx.expect(ok, "setting a limit raised an error", lambda: dict(b=b, limit=start["limit"]))
        k = 0
        while ok and k < len(path):
            # Consecutive filter steps may be presented in one call.
            group = [path[k]]
            while group[0]["op"] == "filter" and k + len(group) < len(path) and path[k + len(group)]["op"] == "filter" and rng.random() < 0.5:
                group.append(path[k + len(group)])
            e = dict(op=group[0]["op"], x=[v for g in group for v in g["x"]], y=[v for g in group for v in g["y"]])
            y, err = apply(o.value, e, scale, form_of(rng))
            done.append(e)
            ok = ctx.expect(not err and y == e["y"], "replayed behaviour differs",
                            lambda: dict(b=b, history=done[-15:], observed=y, error=err, scale=scale))
            k += len(group)
        ctx.validated += 1
        ctx.count("walks replayed")
        ctx.count("steps replayed", len(path))
    ctx.sample(dict(b=paths[0][0], start=paths[0][1], walk=paths[0][2][:20]))
    traces = [session(rng, n) for n in range(ctx.pick(300, 3000))]
    traces += [session(rng, 1, True) for _ in range(ctx.pick(30, 300))]
    ctx.count("calls recorded", sum(len(t["ev"]) for t in traces))
    ctx.sample(traces[0])
    ctx.judge("PidTrace", traces, dict(InitOf="<- PInit", StepOf="<- PStep"))


def session(rng, n, huge=False):
    b = gaussians(rng, 3, 9, rng.random() < 0.85, "noise")
    trace = dict(cfg=dict(b=b), ev=[])
    scale = 2.0 ** rng.choice((0, 0, -5, 12, -80, 200))
    o = make(b, form_of(rng))
    if o.error:
        trace["ev"].append(dict(op="filter", x=[], y=[], e=o.error))
        return trace
    # Complex signals run without a limit: the magnitude of an irrational modulus is compared in rounded arithmetic.
    real = rng.random() < 0.8
    mag = rng.choice((3, 40, 900)) if not huge else rng.choice((3, 40))
    # Small samples beside one that outweighs them by far: each is added all the same.
    spike = real and not huge and rng.random() < 0.15
    if spike:
        b, mag = gaussians(rng, 3, 1, True, "noise"), 3
        trace["cfg"]["b"], o = b, make(b, form_of(rng))
        if o.error:
            trace["ev"].append(dict(op="filter", x=[], y=[], e=o.error))
            return trace
    for size in lengths(rng) if huge else [None] * rng.randint(4, 12):
        r = rng.random()
        if r < 0.2 and real:
            e = dict(op="limit", x=[[rng.choice((0, 1, mag // 2, mag, 3 * mag, 10 * mag)), 0]])
        elif r < 0.24:
            e = dict(op="nolimit", x=[])
        elif r < 0.29:
            e = dict(op="limit", bad=1, x=[[-rng.choice((1, 5, 100)), 0]])
        elif r < 0.37:
            e = dict(op="reset", x=[gauss(rng, mag, real)])
        else:
            m = size if size else rng.choice((1, 2, 5, 20)) if n % 10 else 200
            e = dict(op="filter", x=gaussians(rng, m, mag, real))
            if spike and rng.random() < 0.3:
                e["x"][0] = [rng.choice((2**26, -2**26)), 0]
        e["y"], e["e"] = apply(o.value, e, scale, form_of(rng, real))
        trace["ev"].append(e)
    return trace
