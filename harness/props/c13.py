"""C13 Adaptive complex filters."""

import cmath
import math

from common import *
from engine import OFF
from props.c10 import frequency


def make(kind, m, L, rn, rd):
    from diamondback import ComplexBandpassFilter, ComplexFrequencyFilter

    return call(ComplexBandpassFilter if kind == "band" else ComplexFrequencyFilter, frequency(m, L), rn / rd)


def primary(x, L, scale, form):
    z = [u[0] * scale * cmath.exp(2j * cmath.pi * u[1] / L) for u in x]
    if form == "list":
        return z
    a = numpy.array(z, complex)
    return a.astype(numpy.complex64) if form == "complex64" else a


def apply(o, kind, L, e, scale, form):
    if e["op"] == "filter":
        x = primary(e["x"], L, scale if kind == "band" else abs(scale), form)
        if e.get("real"):
            # Whole cycles of a tone: the analytic signal of the real part is the tone itself.
            x = [z.real for z in x] if form == "list" else x.real
        return call(o.filter, x)
    if e["op"] == "real":
        return call(o.filter, signal_of([[v, 0] for v in e["x"]], scale, form if form in REAL_FORMS else "float64"))
    if e["op"] == "rate":
        return call(setattr, o, "rate", e["x"][0] / e["x"][1])
    if e["op"] == "frequency":
        return call(setattr, o, "frequency", frequency(e["x"][0], L))
    if e["op"] == "reset":
        return call(o.reset, complex(e["x"][0] * cmath.exp(2j * cmath.pi * e["x"][1] / L)))
    return call(setattr, o, e["op"][4:], e["x"][0])


def agrees(kind, L, r, ys, scale, tol, mag):
    """Whether the three results are those of the specification."""

    if r.error or not isinstance(r.value, tuple) or len(r.value) != 3:
        return False
    y, e, b = r.value
    g = scale if kind == "band" else 1.0
    D = [v["D"] for v in ys]
    eb = [cyc(v["b"], L) * g / d for v, d in zip(ys, D)]
    ee = [cyc(v["e"], L) * g / d for v, d in zip(ys, D)]
    if not (close_all(b, eb, tol, mag * g) and close_all(e, ee, tol, mag * g)):
        return False
    if kind == "band":
        return close_all(y, [cyc(v["y"], L) * g / d for v, d in zip(ys, D)], tol, mag * g)
    # The reference is the argument of the coefficient over pi, wherever the coefficient has one.
    if len(y) != len(eb):
        return False
    for a, c in zip(y, eb):
        if complex(a).imag or not -1.0 <= complex(a).real <= 1.0:
            return False
        if abs(c) > 1e-3 and abs(cmath.exp(1j * math.pi * complex(a).real) - c / abs(c)) > tol * 1e3:
            return False
    return True


def run(ctx):
    rng = ctx.rng
    L = 8
    rows = ctx.explore("AdaptiveMC", dict(L=L, Depth=ctx.pick(3, 4), Kinds='{"band", "freq"}', Rates="<- MCRates", Samples="<- MCSamples"),
                       invariants=("Complete", "AtOnce"), properties=("Frozen",))
    for row in rows:
        kind, ev = row["kind"], row["ev"]
        m, rn, rd = ev[0]["x"]
        o = make(kind, m, L, rn, rd)
        if not ctx.expect(not o.error, "construction raised an error", lambda: dict(kind=kind, start=ev[0], observed=repr(o))):
            continue
        scale = 2.0 ** rng.choice((0, 0, -6, 20, 60, -18, -23))
        k = 1
        while k < len(ev):
            e = ev[k]
            if e["op"] == "filter":
                xs, ys = [e["x"]], list(e["y"])
                while k + 1 < len(ev) and ev[k + 1]["op"] == "filter" and rng.random() < 0.5:
                    k += 1
                    xs.append(ev[k]["x"])
                    ys += ev[k]["y"]
                r = apply(o.value, kind, L, dict(op="filter", x=xs), scale, rng.choice(("list", "complex128")))
                ok = agrees(kind, L, r, ys, scale, 1e-9, 2.0)
            else:
                r = apply(o.value, kind, L, e, scale, "")
                ok = not r.error
            if not ctx.expect(ok, "replayed behaviour differs", lambda: dict(kind=kind, L=L, history=ev[: k + 1], observed=repr(r), scale=scale)):
                break
            k += 1
        ctx.validated += 1
        ctx.count("histories replayed")
    ctx.sample(rows[len(rows) // 2])
    sessions = [random_session(rng, n) for n in range(ctx.pick(260, 3000))]
    for session, results in zip(sessions, ctx.oracle("AdaptiveOracle", sessions, workers=1)):
        cfg, kind, L = session["cfg"], session["cfg"]["kind"], session["cfg"]["L"]
        o = make(kind, cfg["m"], L, cfg["rn"], cfg["rd"])
        if not ctx.expect(not o.error, "construction raised an error", lambda: dict(cfg=cfg, observed=repr(o))):
            continue
        tol = 1e-9
        scale = session["scale"]
        for k, (e, want) in enumerate(zip(session["ev"], results)):
            form = rng.choice(("list", "complex128", "complex128", "complex64")) if e["op"] == "filter" else rng.choice(("float64", "list", "int64", "ints", "strided"))
            if form == "complex64":
                tol = max(tol, 3e-5)
            r = apply(o.value, kind, L, e, scale, form)
            if e["op"] in ("filter", "real"):
                ok = agrees(kind, L, r, want, scale, tol, 10.0)
                clause = "each sample follows the update law"
            elif e["op"].startswith("bad "):
                ok, clause = bool(r.error), "a setting out of range is rejected"
            else:
                ok, clause = not r.error, "a setting in range is accepted"
            if not ctx.expect(ok, clause, lambda: dict(cfg=cfg, history=session["ev"][max(0, k - 6): k + 1], form=form, observed=repr(r), scale=scale, tol=tol)):
                break
            ctx.count("calls compared")
    ctx.sample(sessions[0])
    traces = [long_session(rng) for _ in range(ctx.pick(60, 600))]
    ctx.count("samples recorded in long runs", sum(len(e.get("d", ())) for t in traces for e in t["ev"]))
    ctx.judge("AdaptiveTrace", traces, dict(InitOf="<- XInit", StepOf="<- XStep"))
    for kind in ("band", "freq"):
        for f, rate in ((1.001, 0.1), (-1.001, 0.1), (0.1, -0.001), (0.1, 1.001), (5.0, 5.0)):
            from diamondback import ComplexBandpassFilter, ComplexFrequencyFilter

            r = call(ComplexBandpassFilter if kind == "band" else ComplexFrequencyFilter, f, rate)
            ctx.expect(bool(r.error), "a construction out of range is rejected", dict(kind=kind, frequency=f, rate=rate))


UNIT = 4096.0


def fixed(z):
    z = complex(z) * UNIT
    return [int(round(v)) if abs(v) < 1e6 else OFF for v in (z.real, z.imag)]


def long_session(rng):
    """Thousands of samples of tones that change, and rates and frequencies that change, observed in fixed point."""

    kind = rng.choice(("band", "freq"))
    L = rng.choice((4, 8, 12, 20, 64, 100, 360, 1000))
    m = rng.randrange(L)
    rates = ((1, 100), (1, 20), (1, 10), (1, 4), (1, 2), (9, 10), (1, 1), (0, 1))
    rn, rd = rng.choice(rates)
    cfg = dict(kind=kind, L=L, m=m, rn=rn, rd=rd, table=[fixed(cmath.exp(2j * cmath.pi * k / L)) for k in range(L)])
    trace = dict(cfg=cfg, ev=[])
    o = make(kind, m, L, rn, rd)
    if o.error:
        trace["ev"].append(dict(op="filter", n=1, d=[], e=o.error))
        return trace
    c, p, s = rng.choice((0.5, 1.0, 1.5)), rng.randrange(L), rng.randrange(L)
    for n in lengths(rng):
        u = rng.random()
        if u < 0.2:
            x = list(rng.choice(rates))
            trace["ev"].append(dict(op="rate", x=x, e=apply(o.value, kind, L, dict(op="rate", x=x), 1.0, "").error or ""))
        elif u < 0.3:
            x = [rng.randrange(L), 0]
            trace["ev"].append(dict(op="frequency", x=x, e=apply(o.value, kind, L, dict(op="frequency", x=x), 1.0, "").error or ""))
        if rng.random() < 0.4:
            c, p, s = rng.choice((0.5, 1.0, 1.5)), rng.randrange(L), rng.randrange(L)
        real = 0 < s < L / 2 and rng.random() < 0.3
        if real:
            n = max(1, round(n / L)) * L
        powers = [(p + s * k) % L if real or rng.random() < 0.97 else rng.randrange(L) for k in range(n)]
        p = (p + s * n) % L
        x = [c * cmath.exp(2j * cmath.pi * k / L) for k in powers]
        if not any(z.imag for z in x):
            x = [z * 1j for z in x]
            powers = [k for k in powers]
            if L % 4:
                continue
            powers = [(k + L // 4) % L for k in powers]
        x = numpy.array(x) if rng.random() < 0.7 else x
        if real:
            whole = numpy.real(x)
        r = call(o.value.filter, (whole if rng.random() < 0.7 else whole.tolist()) if real else x)
        e = dict(op="filter", n=n, d=[], e=r.error or "")
        if not r.error:
            try:
                y, d, b = r.value
                if len(y) == len(d) == len(b):
                    for k, z, yy, ee, bb in zip(powers, x, y, d, b):
                        # The reference of the frequency filter is presented as its exponential and the magnitude of the coefficient.
                        yy = fixed(yy) if kind == "band" else fixed(cmath.exp(1j * math.pi * float(complex(yy).real)) if complex(yy).imag == 0.0 else 1e9)
                        e["d"].append(dict(k=k, x=fixed(z), y=yy, e=fixed(ee), b=fixed(bb), a=fixed(abs(complex(bb)))))
            except Exception:
                e["e"] = "unreadable result"
        trace["ev"].append(e)
        if e["e"]:
            break
    if not trace["ev"]:
        return long_session(rng)
    return trace


def random_session(rng, n):
    kind = rng.choice(("band", "freq"))
    L = rng.choice((4, 8, 12, 16, 24))
    budget = 14  # halvings of the rate accumulate in the denominator
    m = rng.randrange(L)
    rn, rd = rng.choice(((0, 1), (1, 1), (1, 2), (1, 2), (1, 4), (3, 4)))
    cfg = dict(kind=kind, L=L, m=m, rn=rn, rd=rd)
    ev = []
    start = m
    for _ in range(rng.randint(2, 7)):
        r = rng.random()
        if r < 0.12:
            rn, rd = rng.choice(((0, 1), (1, 1), (1, 2), (1, 4)))
            ev.append(dict(op="rate", x=[rn, rd]))
        elif r < 0.24:
            ev.append(dict(op="frequency", x=[rng.randrange(L), 0]))
        elif r < 0.3 and kind == "freq":
            ev.append(dict(op="reset", x=[rng.choice((0, 1, 7)), rng.randrange(L)]))
        elif r < 0.38:
            ev.append(dict(op=rng.choice(("bad rate", "bad frequency")), x=[rng.choice((-1.5, 1.0001, 3.0))]))
        elif r < 0.48 and kind == "band" and budget >= 8:
            w = rng.choice([v for v in (1, 2, 3, 4, 6, 8) if L % v == 0])
            bits = w * (rd.bit_length() - 1) + w.bit_length() - 1
            if rn == 0 or bits <= budget:
                budget -= bits if rn else w.bit_length() - 1
                ev.append(dict(op="real", x=[rng.randint(-4, 4) for _ in range(w)]))
        else:
            w = rng.choice((1, 1, 2, 3, 5, 8, 14))
            if rn and rd > 1:
                w = min(w, budget // (rd.bit_length() - 1))
                budget -= w * (rd.bit_length() - 1)
            if w <= 0:
                continue
            style = rng.choice(("noise", "tone", "tone"))
            whole = L if not rn or rd == 1 else (L if L * (rd.bit_length() - 1) <= budget + w * (rd.bit_length() - 1) else 0)
            if whole and L > 2 and rng.random() < 0.35:
                if rn and rd > 1:
                    budget -= (whole - w) * (rd.bit_length() - 1)
                c, p, s = rng.randint(1, 5), rng.randrange(L), rng.randint(1, (L - 1) // 2)
                ev.append(dict(op="filter", x=[[c, (p + s * k) % L] for k in range(whole)], real=True))
                continue
            c, p, s = rng.randint(1, 5), rng.randrange(L), rng.randrange(L)
            x = [[c, (p + s * k) % L] if style == "tone" else [rng.choice((0, 1, 1, 2, 5)), rng.randrange(L)] for k in range(w)]
            ev.append(dict(op="filter", x=x))
    if not ev:
        ev.append(dict(op="filter", x=[[1, 1]]))
    return dict(cfg=cfg, ev=ev, scale=2.0 ** rng.choice((0, 0, -5, 12, -14, -18, 60) + (() if any(e["op"] == "real" for e in ev) else (-23,))))
