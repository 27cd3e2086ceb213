"""C04 Designed FIR and IIR filters."""

import math
from multiprocessing import get_context

from common import *
from engine import quant

UNIT = 2.0**-26


def design(c, gain=1.0, style=None):
    from diamondback import FirFilter, IirFilter

    kw = dict(style=style or c["style"], frequency=c["frequency"] / 1000.0, order=c["order"], count=c["count"], complement=c["complement"], gain=gain)
    return call(FirFilter if c["kind"] == "fir" else IirFilter, **kw)


def observe(o, c, gain, ref):
    """An observed design, in fixed point, with coefficients over a common reference."""

    b = numpy.asarray(o.b, float) / gain
    a = numpy.asarray(o.a, float) if c["kind"] == "iir" else numpy.zeros(0)
    if ref is None:
        ref = max(numpy.abs(b).max(), 1e-300), max(numpy.abs(a).max() if len(a) else 0.0, 1.0)
    den = numpy.concatenate(([1.0], -a[1:])) if len(a) else numpy.ones(1)
    alt = lambda p: p * (-1.0) ** numpy.arange(len(p))
    z = numpy.exp(-1j * math.pi * c["frequency"] / 1000.0)
    h = numpy.polyval(b[::-1], z) / numpy.polyval(den[::-1], z)
    roots = numpy.abs(numpy.roots(den)) if len(a) else numpy.zeros(1)
    d = dict(b=[quant(v / ref[0], UNIT) for v in b], a=[quant(v / ref[1], UNIT) for v in a], dc=quant(b.sum() / den.sum(), UNIT), ny=quant(abs(alt(b).sum() / alt(den).sum()), UNIT),
             mag=quant(abs(h) ** c["count"], UNIT), stable=bool(roots.max(initial=0.0) < 1.0))
    return d, ref


def examine(job):
    """Runs in a worker: designs a constraint and its relatives; returns a trace."""

    c, gain, style, want = job
    o = design(c)
    trace = dict(cfg=dict(c=c), ev=[dict(op="construct", accepted=not o.error)], note=repr(o)[:200] if o.error else "")
    if o.error:
        return trace
    d, ref = observe(o.value, c, 1.0, None)
    trace["ev"].append(dict(op="design", d=d))
    mirror = {**c, "complement": not c["complement"], "frequency": 1000 - c["frequency"]}
    for op, c2, g, s in (("gain", c, gain, None), ("case", c, 1.0, style), ("mirror", mirror, 1.0, None)):
        if op not in want:
            continue
        o = design(c2, g, s)
        if o.error:
            trace["ev"].append(dict(op=op, d=dict(b=[], a=[])))
            trace["note"] = repr(o)[:200]
            break
        d, _ = observe(o.value, c2, g, ref)
        trace["ev"].append(dict(op=op, d=dict(b=d["b"], a=d["a"])))
    return trace


def run(ctx):
    rng = ctx.rng
    rows = ctx.explore("DesignMC", dict(Frequencies="{50, 70, 100, 200, 300, 400, 500, 600, 700, 800, 900, 930, 950}", Orders="{1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 24, 33}", Counts="{1, 2, 3}", Coefs="-1..2", Lengths="1..4"),
                       ("Mirrors", "Involution", "Symmetry", "MirrorsConstraint"))
    # A window whose every coefficient is zero has no design.
    cs = [r["c"] for r in rows if not (r["c"]["style"] in ("Hann", "Blackman") and r["c"]["order"] == 1)]
    rng.shuffle(cs)
    # A balanced sample of the grid: every style, complement and attainability.
    buckets = {}
    for r in rows:
        if r["c"] in cs[:0]:
            continue
        c = r["c"]
        if c["style"] in ("Hann", "Blackman") and c["order"] == 1:
            continue
        buckets.setdefault((c["style"], c["complement"], r["attainable"]), []).append(c)
    jobs = []
    share = ctx.pick(10, 90)
    for key in sorted(buckets):
        picks = buckets[key]
        rng.shuffle(picks)
        for k, c in enumerate(picks[: share if key[2] else share // 2]):
            jobs.append((c, rng.choice((2.0, -1.0, 0.125, 10.0, 1e-3)), rng.choice((c["style"].lower(), c["style"].upper(), c["style"][:2] + c["style"][2:].upper(), c["style"][0].lower() + c["style"][1:])),
                         [rng.choice(("gain", "case", "mirror"))] if not ctx.thorough else ["gain", "case", "mirror"]))
    # Frequencies off the grid.
    for _ in range(ctx.pick(100, 1200)):
        kind = rng.choice(("fir", "iir"))
        style = rng.choice(("Blackman", "Hamming", "Hann", "Kaiser") if kind == "fir" else ("Bessel", "Butterworth", "Chebyshev"))
        c = dict(kind=kind, style=style, frequency=rng.randint(31, 969), order=rng.randint(2, 40) if kind == "fir" else rng.randint(1, 8), count=rng.choice((1, 1, 1, 2, 3, 4, 5, 6, 8)), complement=rng.random() < 0.5)
        jobs.append((c, rng.choice((3.0, -0.5)), style.lower(), [rng.choice(("gain", "case", "mirror"))]))
    with get_context("fork").Pool(8) as pool:
        traces = pool.map(examine, jobs, chunksize=2)
    ctx.count("designs", sum(len(t["ev"]) - 1 for t in traces))
    ctx.count("designs held to -3 dB", sum(1 for j in jobs if attainable(j[0], rows)))
    ctx.sample(traces[0])
    ctx.judge("DesignTrace", traces, dict(InitOf="<- XInit", StepOf="<- XStep"))
    ctx.judge("DesignTrace", rejections(rng), dict(InitOf="<- XInit", StepOf="<- XStep"))
    ctx.assumptions.append("-3 dB is required within 0.2 percent, where order, style and frequency can reach it with a margin (Attainable in Design.tla)")


def attainable(c, rows, memo={}):
    if not memo:
        memo.update({key_of(r["c"]): r["attainable"] for r in rows})
    return memo.get(key_of(c), False)


def rejections(rng):
    good = [dict(kind="fir", style=s, frequency=300, order=8, count=1, complement=False) for s in ("Blackman", "Hamming", "Hann", "Kaiser")]
    good += [dict(kind="iir", style=s, frequency=300, order=3, count=1, complement=False) for s in ("Bessel", "Butterworth", "Chebyshev")]
    out = []
    for g in good:
        for k, values in (("style", ("", "Hamm", "Elliptic", "Butterworth" if g["kind"] == "fir" else "Hann")), ("frequency", (0, 1000, -1, -300, 1001, 2500)), ("order", (0, -1, -5)), ("count", (0, -1))):
            for v in values:
                c = {**g, k: v}
                if k != "style":
                    c["complement"] = rng.random() < 0.5
                o = design(c)
                out.append(dict(cfg=dict(c=c), ev=[dict(op="construct", accepted=not o.error)]))
    return out
