"""C33 Designed filters have the shape of their style."""

import cmath, math
from multiprocessing import get_context

from common import *
from props.c11 import kaiser

POINTS = {2: [1, 2, 3], 3: [1, 2, 4], 4: [1, 3, 5]}
RIPPLE = 10.0**0.0125 - 1.0


def response(b, a, z):
    return numpy.polyval(numpy.asarray(b, float)[::-1], z) / (1.0 - numpy.polyval(numpy.asarray(a, float)[::-1], z))


def attenuation(b, a, w, complement, gain):
    """1 / |H|^2 - 1 at the frequency of which the tangent of half the angle is w."""

    z = cmath.exp(-2j * math.atan(w))
    h = abs(response(b, a, -z if complement else z)) / abs(gain)
    return 1.0 / (h * h) - 1.0


def solve(f, lo, hi, target):
    """The argument, on a logarithmic scale, at which an increasing function reaches a target."""

    for _ in range(200):
        mid = math.sqrt(lo * hi)
        lo, hi = (mid, hi) if f(mid) < target else (lo, mid)
    return math.sqrt(lo * hi)


def best(f):
    """The argument, on a logarithmic scale, at which a function is least."""

    grid = numpy.exp(numpy.linspace(math.log(5.0e-3), math.log(4.0), 500))
    v = [f(x) for x in grid]
    found = []
    for k in range(1, len(grid) - 1):
        if v[k] <= min(v[k - 1], v[k + 1]):
            lo, hi = grid[k - 1], grid[k + 1]
            for _ in range(100):
                a, b = lo + (hi - lo) / 3.0, hi - (hi - lo) / 3.0
                lo, hi = (lo, b) if f(a) < f(b) else (a, hi)
            found.append(0.5 * (lo + hi))
    return min(found, key=f, default=1.0)


def make(job):
    from diamondback import FirFilter, IirFilter

    c, gain, kw = job
    style, fir = kw.pop("style"), c["style"] in ("Blackman", "Hamming", "Hann", "Kaiser")
    o = call(FirFilter if fir else IirFilter, style, c["frequency"] / 1000.0, c["order"], **kw)
    if o.error:
        return repr(o)[:300]
    return numpy.array(o.value.b, float), None if fir else numpy.array(o.value.a, float)


def fir_shape(c, b, taps):
    """The greatest difference between coefficients over the window and a sinc, and the window where it vanishes."""

    order, style = c["order"], c["style"]
    w = numpy.array([kaiser(*u["w"]) if style == "Kaiser" else cys(u["w"], max(order, 1)).real / 100.0 for u in taps])
    m = numpy.array([u["m"] / 2.0 for u in taps])
    if c["complement"]:
        b = b * (-1.0) ** numpy.arange(len(b))
    zero = numpy.abs(w) < 1.0e-12
    scale = numpy.abs(b).max()
    near = [i for i in range(order + 1) if m[i] >= 0 and not zero[i]]
    if len(near) < 2:
        return None
    u, v = near[0], near[1]
    # sin(t) / t, or sin(3 t / 2) / (3 sin(t / 2)), falls over (0, pi].
    g = (lambda t: math.sin(m[v] * t) / (m[v] * t) / (math.sin(m[u] * t) / (m[u] * t) if m[u] else 1.0))
    t = solve(lambda t: -g(t), 1.0e-4, math.pi, -(b[v] / w[v]) / (b[u] / w[u]))
    # More precisely, from a coefficient further from the middle.
    further = [i for i in near[1:] if m[i] * t <= 2.5]
    if further:
        v = further[-1]
        t = solve(lambda t: -g(t), 0.9 * t, min(1.1 * t, math.pi), -(b[v] / w[v]) / (b[u] / w[u]))
    sinc = numpy.array([math.sin(x * t) / (x * t) if x else 1.0 for x in m])
    want = w * sinc
    want *= (b[u] / want[u])
    return float(numpy.abs(b - want).max() / scale), t / math.pi


def run(ctx):
    rng = ctx.rng
    ctx.explore("PrototypeMC", dict(Orders=f"1..8", Den=ctx.pick(4, 5)), ("InBand", "Edge", "Beyond", "Values", "Closed", "Flat", "Vanish", "Symmetric"), emit=())
    jobs = []
    for _ in range(ctx.pick(160, 2400)):
        fir = rng.random() < 0.4
        style = rng.choice(("Blackman", "Hamming", "Hann", "Kaiser") if fir else ("Bessel", "Butterworth", "Chebyshev"))
        complement = rng.random() < 0.4
        if fir:
            order = rng.choice((rng.randint(4, 12), rng.randint(8, 64), rng.randint(16, 160)))
            f = rng.randint(max(20, 2500 // order), 950)
        else:
            order = rng.randint(1, 10)
            # Coefficients determine poles reliably when these are not too close to one.
            f = rng.randint(15 + 8 * order, 160) if style == "Bessel" else rng.randint(20 + 25 * order, 800)
        c = dict(style=style, frequency=1000 - f if complement else f, order=order, complement=complement)
        kw = dict(style=rng.choice((style, style.lower(), style.upper())))
        count, gain = rng.choice((1, 1, 2, 3)), rng.choice((1.0, 1.0, 2.0, -0.5, 100.0))
        if count != 1 or rng.random() < 0.5:
            kw["count"] = count
        if complement or rng.random() < 0.5:
            kw["complement"] = complement
        if gain != 1.0 or rng.random() < 0.5:
            kw["gain"] = gain
        jobs.append((c, gain, kw))
    with get_context("fork").Pool(8) as pool:
        made = pool.map(make, jobs, chunksize=2)
    sessions = []
    for c, _, _ in jobs:
        if c["style"] in ("Bessel", "Butterworth", "Chebyshev"):
            ev = [dict(op="zeros")] + ([dict(op="poles")] if c["style"] == "Bessel" else [dict(op="values", p=POINTS[q], q=q) for q in (2, 3, 4) if q < 4 or c["order"] <= 8])
        else:
            ev = [dict(op="taps")]
        sessions.append(dict(cfg=c, ev=ev))
    worst = {}
    for (c, gain, kw), m, r in zip(jobs, made, ctx.oracle("PrototypeOracle", sessions)):
        detail = lambda **more: dict(design=c, gain=gain, options=kw, observed=m if isinstance(m, str) else [u.tolist() if u is not None else None for u in m], **more)
        if not ctx.expect(not isinstance(m, str), "a design within range raised an error", detail):
            continue
        b, a = m
        order = c["order"]
        if a is None:
            shape = fir_shape(c, b, r[0]) if b.shape == (order + 1,) else (9.0, 0.0)
            if shape is not None:
                ctx.expect(shape[0] <= 1.0e-9, "coefficients are a sinc weighed by the window of the style", lambda: detail(difference=shape[0]))
                worst["fir"] = max(worst.get("fir", 0), shape[0])
            ctx.count("FIR designs compared")
            continue
        if not ctx.expect(len(b) == order + 1 and b[0] != 0.0 and close_all(b / b[0], r[0], 1.0e-9, max(r[0])), "every zero of a recursive filter is at Nyquist (at zero for a complement)", detail):
            continue
        if c["style"] == "Bessel":
            flip = (-1.0) ** numpy.arange(order + 1) if c["complement"] else numpy.ones(order + 1)
            den = numpy.concatenate(([1.0], -a[1:])) * flip
            roots = numpy.roots(r[1][::-1])
            spread = lambda g: float(numpy.abs(numpy.poly(numpy.exp(roots * g)).real - den).max())
            g = best(spread)
            err = spread(g)
            ctx.expect(err <= 1.0e-9, "poles of a Bessel filter are those of a filter with maximally flat delay", lambda: detail(difference=float(err)))
        else:
            if c["style"] == "Butterworth":
                shape = lambda x, t: x ** (2 * order)
            else:
                base = RIPPLE * (0 if order % 2 else 1)
                shape = lambda x, t: (1.0 + RIPPLE * t * t) / (1.0 + base) - 1.0
            values = {p / q: shape(p / q, v / q**order) for q, vs in zip((2, 3, 4), r[1:]) for p, v in zip(POINTS[q], vs)}
            # The scale of frequency, from the attenuation at one and a half times the edge.
            f = lambda w: attenuation(b, a, w, c["complement"], gain)
            top = max(values)
            edge = solve(lambda w: f(w) if w < 1e6 else 1e300, 1.0e-4, 1.0e4, values[top]) / top
            got = {x: f(x * edge) for x in values}
            err = max(abs(got[x] - values[x]) / max(values[x], 0.02) for x in values)
            ctx.expect(err <= 1.0e-6, "attenuation follows the power of a Butterworth filter" if c["style"] == "Butterworth" else "attenuation follows the equal ripple of a Chebyshev filter of 0.125 dB", lambda: detail(edge=edge, expected=values, got=got))
        worst[c["style"]] = max(worst.get(c["style"], 0), err)
        ctx.count("IIR designs compared")
        ctx.validated += 1
    ctx.assumptions.append("shapes are compared where coefficients determine them reliably: order at most 10 for recursive filters, order times frequency at least 2.5 for FIR filters")
    ctx.sample(sessions[0])
