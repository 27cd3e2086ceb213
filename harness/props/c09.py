"""C09 Rank filter."""

from common import *


def make(index, order):
    from diamondback import RankFilter

    return call(RankFilter, index, order)


def apply(obj, e, scale, form):
    if e["op"] == "filter":
        o = call(obj.filter, signal_of(e["x"], scale, form))
        return (pairs_of(o.value, scale), "") if not o.error else ([], o.error)
    if e["op"] == "read":
        o = call(lambda: obj.index)
        return (pairs_of([o.value]), "") if not o.error else ([], o.error)
    if e["op"] == "reset":
        o = call(obj.reset, scalar_of(e["x"][0], scale, form))
    else:
        o = call(setattr, obj, "index", e["x"][0][0])
    return [], o.error or ""


def run(ctx):
    rng = ctx.rng
    for samples, orders in (("<- MCSamples", ctx.pick("{0, 1, 2}", "{0, 1, 2, 3, 4}")), ("<- MCComplex", ctx.pick("{1, 2}", "{1, 2, 3}"))):
        rows = ctx.explore("RankMC", dict(Samples=samples, Orders=orders), invariants=("TypeOK", "Realized", "Extremes", "Unordered"),
                           emit=("EmitInit",), emit_actions=("EmitStep",), view="View", label=f"all reachable states, {samples}")
        paths, edges = walks(rows, rng, ("order",))
        ctx.count("transitions of the specification", edges)
        for (order,), start, path in paths:
            scale = 2.0 ** rng.choice((0, 0, -3, 10, -60))
            o = make(start["k"], order)
            if not ctx.expect(not o.error, "construction raised an error", lambda: dict(order=order, index=start["k"], observed=repr(o))):
                continue
            done, k, ok = [], 0, True
            while ok and k < len(path):
                group = [path[k]]
                while group[0]["op"] == "filter" and k + len(group) < len(path) and path[k + len(group)]["op"] == "filter" and rng.random() < 0.5:
                    group.append(path[k + len(group)])
                e = dict(op=group[0]["op"], x=[v for g in group for v in g["x"]], ys=[v for g in group for v in g["ys"]])
                y, err = apply(o.value, e, scale, form_of(rng))
                done.append(e)
                if e["op"] == "bad":
                    ok = bool(err)
                else:
                    ok = not err and len(y) == len(e["ys"]) and all(v in allowed for v, allowed in zip(y, e["ys"]))
                ctx.expect(ok, "replayed behaviour differs",
                           lambda: dict(order=order, start=start, history=done[-15:], observed=y, error=err, scale=scale))
                k += len(group)
            ctx.validated += 1
            ctx.count("walks replayed")
            ctx.count("steps replayed", len(path))
        ctx.sample(dict(order=paths[0][0], start=paths[0][1], walk=paths[0][2][:12]))
    for index, order in ((-1, 0), (1, 0), (-1, 3), (4, 3), (10, 3), (3, -1), (0, -1)):
        o = make(index, order)
        ctx.expect(bool(o.error), "construction out of range is rejected", lambda: dict(index=index, order=order, observed=repr(o)))
    traces = [session(rng, n) for n in range(ctx.pick(250, 2500))]
    traces += [session(rng, 1, True) for _ in range(ctx.pick(30, 300))]
    traces += [session(rng, 1, True, fill=0) for _ in range(ctx.pick(12, 100))]
    ctx.count("calls recorded", sum(len(t["ev"]) for t in traces))
    ctx.sample(traces[0])
    ctx.judge("RankTrace", traces, dict(InitOf="<- RInit", StepOf="<- RStep"))


def session(rng, n, huge=False, fill=None):
    order = rng.choice((0, 1, 2, 3, 4, 5, 6, 9, 16, 31)) if not huge else rng.choice((1, 2, 4, 7, 63, 100, 128, 200, 256))
    if fill is not None:
        order = rng.choice((63, 128, 255, 256, 257, 300, 400, 513))
        fill = 2 * order
    index = rng.choice((0, order, order // 2, rng.randint(0, order)))
    trace = dict(cfg=dict(order=order, index=index), ev=[])
    scale = 2.0 ** rng.choice((0, 0, -5, 12, -80, 200))
    o = make(index, order)
    if o.error:
        trace["ev"].append(dict(op="filter", x=[], y=[], e=o.error))
        return trace
    real = rng.random() < 0.75
    mag = rng.choice((3, 40, 9000))
    for size in lengths(rng) if huge and order < 50 else [None] * rng.randint(4, 12):
        r = rng.random()
        if fill and fill > 0:
            # The window fills, and then holds nothing else.
            m = rng.choice((order // 2, order - 3, order + 9))
            e = dict(op="filter", x=gaussians(rng, m, mag, real))
            fill -= m
        elif fill is not None and r < 0.5:
            e = dict(op="filter", x=gaussians(rng, 20, mag, real))
        elif r < 0.12:
            e = dict(op="index", x=[[rng.randint(0, order), 0]])
        elif r < 0.2:
            e = dict(op="index", x=[[rng.choice((-1, -2, -order - 1, order + 1, order + 7)), 0]])
        elif r < 0.25:
            e = dict(op="read", x=[])
        elif r < 0.33:
            e = dict(op="reset", x=[gauss(rng, mag, real)])
        else:
            m = size if size else rng.choice((1, 2, 5, 20)) if n % 10 else 60
            e = dict(op="filter", x=gaussians(rng, m, mag, real))
        e["y"], e["e"] = apply(o.value, e, scale, form_of(rng, real))
        trace["ev"].append(e)
    return trace
