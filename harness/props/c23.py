"""C23 Z transform."""

import math

from common import *

LN2 = math.log(2.0)


def present(rng, c, zeros, scale, whole=True):
    """An s-domain coefficient array: leading zeros, a common scale, and a form a caller might use."""

    c = [0.0] * zeros + [v * scale for v in c]
    kind = rng.choice(("list", "tuple", "array", "ints", "readonly", "strided"))
    if kind == "list":
        return c
    if kind == "tuple":
        return tuple(c)
    a = numpy.array(c)
    if kind == "ints" and whole and all(float(v).is_integer() and abs(v) < 2**31 for v in c):
        return rng.choice((a.astype(int), [int(v) for v in c]))
    if kind == "strided":
        b = numpy.zeros(2 * len(a))
        b[::2] = a
        b[1::2] = 7.5
        return b[::2]
    if kind == "readonly":
        a.flags.writeable = False
    return a


def check(ctx, e, u, v, frequency, bilinear, r, clause, tol=1e-7):
    """One conversion against exact polynomials r.a and r.b."""

    from diamondback import ZTransform

    rng = ctx.rng
    scale = rng.choice((1.0, 1.0, 2.0, 0.25, -3.0, 1e3, 1e-4, 1e-11, 1e12))
    other = scale if rng.random() < 0.7 else 2.0 * scale
    pu, pv = present(rng, u, rng.choice((0, 0, 1, 2)), scale), present(rng, v, rng.choice((0, 0, 1, 3)), other)
    before = numpy.array(pu), numpy.array(pv)
    style = rng.randrange(3)
    if bilinear and style == 0:
        o = call(ZTransform.transform, pu, pv, frequency)
    elif style == 1:
        o = call(ZTransform.transform, pu, pv, frequency, bilinear)
    else:
        o = call(ZTransform.transform, u=pu, v=pv, frequency=frequency, bilinear=bilinear)
    ra, rb = [complex(*x).real for x in r["a"]], [complex(*x).real for x in r["b"]]
    a = [0.0] + [-x / ra[0] for x in ra[1:]]
    gain = sum(ra) / ra[0] / sum(rb)
    b = [x * gain for x in rb]
    good = not o.error and isinstance(o.value, tuple) and len(o.value) == 2
    if good:
        y, z = numpy.asarray(o.value[0]), numpy.asarray(o.value[1])
        good = y.shape == (len(a),) and z.shape == (len(b),) and not numpy.iscomplexobj(y) and not numpy.iscomplexobj(z)
        good = good and y[0] == 0.0 and close_all(y, a, tol, max(1.0, *map(abs, a))) and close_all(z, b, tol, max(map(abs, b)))
        good = good and abs(z.sum() - (1.0 - y.sum())) <= 1e-6 * max(1.0, abs(z).max(), abs(y).max())
    ctx.expect(good, clause, lambda: dict(event=e, u=repr(pu), v=repr(pv), frequency=frequency, bilinear=bilinear, observed=repr(o), expected=[a, b]))
    ctx.expect(same(before, (numpy.array(pu), numpy.array(pv))), "an argument was modified", lambda: dict(event=e, u=repr(pu), v=repr(pv)))
    ctx.count("calls compared")


MODS = [m for m in range(2**15 - 1, 2**14, -2) if all(m % k for k in range(3, 182, 2))][:24]


def whole(parts):
    """The polynomial whose coefficients are given modulo every one of MODS."""

    top = math.prod(MODS)
    inverses = [top // m * pow(top // m, -1, m) for m in MODS]
    out = []
    for residues in zip(*parts):
        v = sum(r[0] * q for r, q in zip(residues, inverses)) % top
        assert not any(r[1] for r in residues)
        out.append(v if v <= top // 2 else v - top)
    return out


def many(ctx):
    """More roots than 32 bits hold products of."""

    rng, sessions = ctx.rng, []
    for _ in range(ctx.pick(60, 600)):
        n = rng.randint(5, 12)
        if rng.random() < 0.5:
            tau, poles, zeros = rng.randint(1, 9), [], []
            while len(poles) < n:
                p = [rng.randint(-7, 2), rng.choice((0, 1, 2, 3, 4, 5)) if n - len(poles) > 1 else 0]
                if p not in ([0, 0], [tau, 0]) and p not in poles:
                    poles += [p] if not p[1] else [p, [p[0], -p[1]]]
            for p in ([rng.randint(-6, -1), 0] for _ in range(rng.randint(0, n))):
                if p not in poles and p not in zeros:
                    zeros.append(p)
        else:
            n = min(n, 10)
            tau, poles = 0, [[-k, 0] for k in rng.sample(range(1, n + 3), n)]
            zeros = [[-k, 0] for k in rng.sample(range(1, 16), rng.randint(0, 3))]
            zeros = [p for p in zeros if p not in poles]
        sessions.append(dict(cfg=dict(), ev=[dict(kind="many", tau=tau, poles=poles, zeros=zeros, mods=MODS)]))
    for s, ys in zip(sessions, ctx.oracle("ZTransformOracle", sessions, label="many roots")):
        e, y = s["ev"][0], ys[0]
        r = {k: [(v, 0) for v in whole([part[k] for part in y["r"]])] for k in ("a", "b")}
        u, v = [float(x) for x in whole(y["u"])], [float(x) for x in whole(y["v"])]
        if sum(c[0] for c in r["b"]) == 0:
            continue
        # Divided by a power of two that leaves the integers in the range of doubles.
        for k in r:
            top = max(abs(c[0]) for c in r[k])
            r[k] = [(c[0] / top, 0.0) for c in r[k]]
        note = dict(e, mods=len(MODS))
        if e["tau"]:
            check(ctx, note, u, v, 2.0 / (math.pi * e["tau"]), True, r, "bilinear conversion of many roots differs from the specification", 1e-5)
        else:
            t = rng.choice((1.0, 0.5, 2.0))
            u, v = ([x * (t * LN2) ** k for k, x in enumerate(w)] for w in (u, v))
            check(ctx, note, u, v, 1.0 / (math.pi * t), False, r, "impulse invariant conversion of many roots differs from the specification", 1e-3)


def reals(p):
    return [float(x[0]) for x in p]


def run(ctx):
    rng = ctx.rng
    rows = ctx.explore("ZTransformMC", dict(Poles="<- MCPoles", Zeros="<- MCZeros", Taus=ctx.pick("{1, 3}", "{1, 3, 7}"), Depth=ctx.pick(4, 5)),
                       ("IsReal", "OrderKept", "ZeroFrequency", "Stable", "Infinity", "Modular"), spec="Spec")
    ctx.sample(rows[len(rows) // 2])
    rng.shuffle(rows)
    for row in rows[: ctx.pick(2500, 20000)]:
        check(ctx, row, reals(row["u"]), reals(row["v"]), 2.0 / (math.pi * row["tau"]), True, row["r"], "replayed behaviour differs")
        ctx.validated += 1
    sessions = [dict(cfg=dict(), ev=[event(rng)]) for _ in range(ctx.pick(600, 8000))]
    for s, ys in zip(sessions, ctx.oracle("ZTransformOracle", sessions)):
        e, y = s["ev"][0], ys[0]
        if sum(complex(*x).real for x in y["r"]["b"]) == 0.0:
            continue  # no gain at zero frequency to preserve
        if e["kind"] == "bilinear":
            # Scaling s, and the frequency inversely, changes nothing: poles need not be integers.
            c = 2.0 ** e["stretch"]
            u = [x * c**k for k, x in enumerate(reals(y["u"]))]
            v = [x * c**k for k, x in enumerate(reals(y["v"]))]
            check(ctx, e, u, v, 2.0 / (math.pi * e["tau"] * c), True, y["r"], "bilinear conversion differs from the specification", 1e-6)
        else:
            t = e["t"] / 4.0
            if e["kind"] == "impulse":
                u = [x * (t * LN2) ** k for k, x in enumerate(reals(y["u"]))]
                v = [x * (t * LN2) ** k for k, x in enumerate(reals(y["v"]))]
            else:
                p = t * complex(-e["k"][0] * LN2, math.pi / 2.0)
                u, v = [1.0, -2.0 * p.real, abs(p) ** 2], [1.0]
            check(ctx, e, u, v, 1.0 / (math.pi * t), False, y["r"], "impulse invariant conversion differs from the specification", 1e-6)
    ctx.sample(sessions[0])
    many(ctx)
    reject(ctx)
    ctx.assumptions.append("roots at zero frequency, and poles closer than 1e-3 (which the partial fraction expansion of scipy treats as one), are excluded")


def event(rng):
    kind = rng.random()
    if kind < 0.55:
        tau = rng.randint(1, 9)

        def roots(n, avoid):
            out = []
            while len(out) < n:
                p = [rng.randint(-6, 3), rng.choice((0, 0, 1, 2, 3)) if n - len(out) > 1 else 0]
                if p in ([0, 0], [tau, 0]) or p in out or p in avoid:
                    continue
                out += [p] if not p[1] else [p, [p[0], -p[1]]]
            return out

        poles = roots(rng.randint(1, 4), [])
        zeros = roots(rng.randint(0, len(poles) + (rng.random() < 0.1)), poles)
        return dict(kind="bilinear", tau=tau, poles=poles, zeros=zeros, stretch=rng.choice((0, 0, 0, 1, -1, -3, 9, -9)))
    if kind < 0.92:
        n = rng.randint(1, 4)
        k = rng.sample([1, 2, 3, 4, 5] if rng.random() < 0.8 else [-2, -1, 1, 2, 3], n)
        m = [rng.choice((-3, -1, 1, 2, 6, 7)) for _ in range(rng.randint(0, n - 1))]
        return dict(kind="impulse", k=k, m=[x for x in m if x not in k], t=rng.choice((1, 2, 4, 4, 5, 9, 20)))
    return dict(kind="pair", k=[rng.randint(0, 4)], t=rng.choice((1, 2, 4, 9)))


def reject(ctx):
    from diamondback import ZTransform

    good = ([1.0, 2.0, 1.5], [1.0])
    for bilinear in (True, False):
        for u, v, f in (([], [1.0], 0.1), ([1.0, 2.0], [], 0.1), ([0.0, 0.0], [1.0], 0.1), ([1.0, 2.0], [0.0, 0.0], 0.1), (*good, 0.0), (*good, -0.5), (numpy.zeros(0), numpy.ones(1), 0.1),
                        (numpy.zeros(3), numpy.ones(2), 0.1), ([0], [1], 0.1), ([1, 2], [0], 0.1), (*good, -1e-9), (*good, float("-inf"))):
            o = call(ZTransform.transform, u, v, f, bilinear)
            ctx.expect(bool(o.error), "empty or all-zero arrays and a frequency that is not positive are rejected", lambda: dict(u=repr(u), v=repr(v), frequency=f, bilinear=bilinear, observed=repr(o)))
