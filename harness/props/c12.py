"""C12 Complex exponential filter."""

import cmath

from common import *

COARSE = ("float32", "float16")


def make(p, K):
    from diamondback import ComplexExponentialFilter

    return call(ComplexExponentialFilter, p / K) if p else call(ComplexExponentialFilter)


def present(x, K, form, imaginary=0):
    v = [f / K for f in x]
    if imaginary:
        z = [complex(a, 0.0) for a in v]
        z[imaginary % len(z)] += 0.25j
        return z if form == "list" else numpy.array(z)
    if form in ("int64", "ints", "int8") and all(float(a).is_integer() for a in v):
        return [int(a) for a in v] if form == "ints" else numpy.array(v, form)
    if form in COARSE:
        a = numpy.array(v, form)
        return a if (a.astype(float) == numpy.array(v, float)).all() else numpy.array(v, float)
    if form == "tuple":
        return tuple(v)
    if form == "strided":
        a = numpy.zeros(3 * len(v))
        a[::3] = v
        return a[::3]
    return v if form in ("list", "ints") else numpy.array(v, float)


def step(o, e, K, form):
    """Applies an event; returns (call, phase afterwards)."""

    if e["op"] == "phase":
        r = call(setattr, o, "phase", e["x"][0] / K)
    else:
        r = call(o.filter, present(e["x"], K, form, e.get("complex", 0)))
    return r, call(lambda: o.phase)


def agrees(r, phase, expect, K, drift, exact):
    """Whether a call and the phase after it are those of the specification."""

    if bool(r.error) == expect["ok"]:
        return False
    if phase.error or not isinstance(phase.value, (int, float, numpy.floating, numpy.integer)):
        return False
    p = float(phase.value)
    tol = 1e-9 if exact else 1e-5
    d = (p - expect["p"] / K) % 2.0
    if not (-1.0 <= p <= 1.0 and min(d, 2.0 - d) <= tol):
        return False
    if expect["ok"] and expect["y"]:
        return close_all(r.value, [cmath.exp(1j * cmath.pi * v / K) for v in expect["y"]], tol)
    return True


def run(ctx):
    rng = ctx.rng
    for K in ctx.pick((4,), (4, 6, 10)):
        rows = ctx.explore("ComplexExponentialMC", dict(K=K, Frequencies=f"-{K}..{K}"), invariants=("InBounds", "Accumulates", "Grouping"),
                           emit=("EmitInit",), emit_actions=("EmitStep",), view="View", label="all phases")
        paths, edges = walks(rows, rng)
        ctx.count("transitions of the specification", edges)
        for _, start, path in paths:
            o = make(start, K)
            if not ctx.expect(not o.error, "construction raised an error", lambda: dict(phase=start / K, observed=repr(o))):
                continue
            k, done, ok, exact = 0, [], True, True
            while ok and k < len(path):
                group = [path[k]]
                while group[0]["op"] == "filter" and k + len(group) < len(path) and path[k + len(group)]["op"] == "filter" and rng.random() < 0.6:
                    group.append(path[k + len(group)])
                e = dict(op=group[0]["op"], x=[v for g in group for v in g["x"]])
                ys = [v for g in group for v in g["y"]]
                k += len(group)
                form = rng.choice(("float64", "list", "ints", "int64", "int8", "tuple", "strided", "float32"))
                exact = exact and form not in COARSE
                if e["op"] == "reject complex":
                    e["complex"] = 1 + rng.randrange(3)
                    e["x"] = e["x"] * 3
                if e["op"] == "reject filter" and rng.random() < 0.5:
                    e["x"] = [0, 1] + e["x"]
                if e["op"] == "reject empty":
                    e["x"] = []
                want = dict(ok=not e["op"].startswith("reject"), y=ys)
                # The phase after the group is that of the specification after its last step.
                p = (done[-1] if done else start)
                for g in group:
                    p = (p + g["x"][0]) if g["op"] == "filter" else (g["x"][0] if g["op"] == "phase" else p)
                want["p"] = p
                e2 = dict(e, op="phase" if "phase" in e["op"] else "filter")
                r, phase = step(o.value, e2, K, form)
                ok = ctx.expect(agrees(r, phase, want, K, 0, exact), "replayed behaviour differs",
                                lambda: dict(K=K, start=start, step=e, form=form, expected=want, observed=repr(r), phase=repr(phase)))
                done.append(p)
            ctx.validated += 1
            ctx.count("walks replayed")
            ctx.count("steps replayed", len(path))
        ctx.sample(dict(start=paths[0][1], walk=paths[0][2][:12]))
    sessions = []
    for n in range(ctx.pick(340, 4400)):
        huge = n % 17 == 5
        K = rng.choice((4, 10, 100, 1000, 3, 7, 2**20, 2**28))
        # Frequencies far below the resolution of a phase in use: they accumulate all the same.
        F = rng.choice((1, 3, 40)) if K == 2**28 else K
        ev = []
        for size in lengths(rng) if huge else [None] * rng.randint(3, 10):
            r = rng.random() if not huge else 1.0
            m = size if size else rng.choice((1, 1, 2, 3, 8, 30)) if n % 12 else 400
            if r < 0.12:
                ev.append(dict(op="phase", x=[rng.choice((K, -K, 0, rng.randint(-K, K), K + 1, -K - 1, 2 * K))], complex=0))
            elif r < 0.24:
                x = [rng.randint(-K, K) for _ in range(m)]
                kind = rng.choice(("range", "complex", "empty"))
                if kind == "range":
                    x[rng.randrange(m)] = rng.choice((K + 1, -K - 1, 5 * K))
                ev.append(dict(op="filter", x=[] if kind == "empty" else x, complex=1 + rng.randrange(m) if kind == "complex" else 0))
            else:
                style = rng.choice(("noise", "constant", "extreme"))
                c = rng.randint(-F, F)
                x = [rng.randint(-F, F) if style == "noise" else (c if style == "constant" else rng.choice((-F, F))) for _ in range(m)]
                ev.append(dict(op="filter", x=x, complex=0))
        sessions.append(dict(cfg=dict(K=K, p=rng.choice((0, K, -K, rng.randint(-K, K)))), ev=ev))
    for n in range(ctx.pick(6, 40)):
        # One call over which the accumulated frequency grows to thousands of cycles.
        K, m = rng.choice((4, 8, 1024)), rng.choice((5000, 9000, 20000))
        low = rng.choice((K, K - 1, K // 2, 1))
        sign = rng.choice((1, -1))
        sessions.append(dict(cfg=dict(K=K, p=rng.randint(-K, K)), ev=[dict(op="filter", x=[sign * rng.randint(low, K) for _ in range(m)], complex=0), dict(op="filter", x=[1, -K], complex=0)]))
    ctx.count("calls presented", sum(len(s["ev"]) for s in sessions))
    for session, results in zip(sessions, ctx.oracle("ComplexExponentialOracle", sessions)):
        K = session["cfg"]["K"]
        o = make(session["cfg"]["p"], K)
        if not ctx.expect(not o.error, "construction raised an error", lambda: dict(cfg=session["cfg"], observed=repr(o))):
            continue
        exact = True
        for k, (e, want) in enumerate(zip(session["ev"], results)):
            form = rng.choice(("float64", "list", "ints", "int64", "tuple", "strided", "float32"))
            if form in COARSE and len(e["x"]) > 40:
                form = "float64"  # a long sum in single precision is as coarse as its input
            exact = exact and form not in COARSE
            r, phase = step(o.value, e, K, form)
            if not ctx.expect(agrees(r, phase, want, K, k, exact), "phase is the accumulated frequency",
                              lambda: dict(cfg=session["cfg"], event=e, call=k, form=form, expected=want, observed=repr(r), phase=repr(phase))):
                break
    ctx.sample(sessions[0])
    for p in (1.0001, -1.0001, 2, float("inf")):
        from diamondback import ComplexExponentialFilter

        ctx.expect(bool(call(ComplexExponentialFilter, p).error), "a phase beyond [-1, 1] is rejected", dict(phase=p))
