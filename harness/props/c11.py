"""C11 Window filter."""

import math
from fractions import Fraction

from common import *


def bessel(argument2):
    """The modified Bessel function of order zero at the square root of a rational, by its series."""

    total, term, k, q = 1.0, 1.0, 0, float(argument2) / 4.0
    while term > 1.0e-18 * total:
        k += 1
        term *= q / (k * k)
        total += term
    return total


def kaiser(p, q):
    return bessel(49 * Fraction(p, q)) / bessel(49)


def styled(rng, style):
    return rng.choice((style, style.lower(), style.upper(), style.swapcase()))


def degenerate(style, order):
    """A window that is identically zero has no normalization."""

    return order == 1 and style in ("Hann", "Blackman")


def run(ctx):
    from diamondback import WindowFilter

    rng = ctx.rng
    rows = ctx.explore("WindowMC", dict(Orders=f"0..{ctx.pick(40, 130)}"), invariants=("Symmetric", "SumIs", "Peak"), workers=1)
    sums, table = {}, {}
    for row in rows:
        style, order = row["style"], row["order"]
        expected = [cyc(u, max(order, 1)).real / 100.0 for u in row["w"]] if row["w"] else [kaiser(*k) for k in row["k"]]
        sums[(style, order)] = sum(abs(v) for v in expected)
        table[(style, order)] = expected
        for normal in (False, True):
            if normal and degenerate(style, order):
                continue
            o = call(WindowFilter, styled(rng, style), order, normal)
            if not ctx.expect(not o.error, "construction raised an error", lambda: dict(style=style, order=order, normal=normal, observed=repr(o))):
                continue
            b = call(lambda: numpy.array(o.value.b)).value
            g = (order + 1) / sums[(style, order)] if normal else 1.0
            detail = lambda: dict(style=style, order=order, normal=normal, observed=repr(b))
            good = b is not None and b.shape == (order + 1,)
            if not ctx.expect(good, "the window has order + 1 coefficients", detail):
                continue
            ctx.expect(close_all(b, [v * g for v in expected], 1e-9, g), "the window follows the formula of its style", detail)
            ctx.expect(close_all(b, b[::-1], 1e-12, g), "the window is symmetric", detail)
            ctx.expect((b >= -1e-12 * g).all(), "the window is non-negative", detail)
            if normal:
                ctx.expect(close(sum(b), order + 1, 1e-9), "normalized coefficients sum to order + 1", detail)
            elif order % 2 == 0:
                ctx.expect(close(max(b), 1.0, 1e-9), "the peak of an even order window is one", detail)
            ctx.validated += 1
            ctx.count("windows compared")
    default = call(WindowFilter, "Hann", 6)
    ctx.expect(not default.error and close_all(default.value.b, [v * 7 / sums[("Hann", 6)] for v in table[("Hann", 6)]]), "normalization is the default", lambda: dict(observed=repr(default)))
    # Long windows, by their terms.
    orders = [41, 63, 64, 99, 127, 128, 129, 199, 200, 254, 255, 256, 257, 299, 400, 511, 512, 513, 600, 999, 1000, 1023, 1024] + rng.sample(range(40, 2050), ctx.pick(8, 80))
    sessions = [dict(cfg=dict(style=s, order=n), ev=[dict(op="window")]) for n in orders for s in ("Hann", "Hamming", "Blackman", "Kaiser")]
    for session, results in zip(sessions, ctx.oracle("WindowOracle", sessions, label="long")):
        style, order = session["cfg"]["style"], session["cfg"]["order"]
        w = [kaiser(*k) for k in results[0]["w"]] if style == "Kaiser" else [cys(u, order).real / 100.0 for u in results[0]["w"]]
        for normal in (False, True):
            o = call(WindowFilter, styled(rng, style), order, normal)
            g = (order + 1) / sum(abs(v) for v in w) if normal else 1.0
            b = numpy.array(o.value.b) if not o.error else None
            ctx.expect(b is not None and close_all(b, [v * g for v in w], 1e-9, g), "a long window follows the formula of its style", lambda: dict(style=style, order=order, normal=normal, observed=repr(b), expected=w[:8]))
            if b is not None and b.shape == (order + 1,):
                x = gaussians(rng, order + 1, 50, rng.random() < 0.6)
                y = call(o.value.filter, signal_of(x, 1.0, form_of(rng)))
                ctx.expect(not y.error and close_all(y.value, [complex(*v) * u * g for v, u in zip(x, w)], 1e-9, 50.0 * g), "output is the product of signal and window", lambda: dict(style=style, order=order, normal=normal, x=x, observed=repr(y)))
            ctx.count("long windows compared")
    sessions = []
    for n in range(ctx.pick(250, 2500)):
        style, order = rng.choice(("Hann", "Hamming", "Blackman", "Kaiser")), rng.choice((0, 1, 2, 3, 4, 5, 8, 13, 20, 37))
        normal = rng.random() < 0.5 and not degenerate(style, order)
        ev = []
        for _ in range(rng.randint(2, 6)):
            m = order + 1 if rng.random() < 0.75 else rng.choice((0, 1, order, order + 2, 2 * order + 2))
            ev.append(dict(op="filter", x=gaussians(rng, m, 50, rng.random() < 0.6), dim=1 if rng.random() < 0.9 else rng.choice((0, 2, 2, 3)), form=form_of(rng)))
        sessions.append(dict(cfg=dict(style=style, order=order), ev=ev, normal=normal))
    for session, results in zip(sessions, ctx.oracle("WindowOracle", sessions)):
        style, order, normal = session["cfg"]["style"], session["cfg"]["order"], session["normal"]
        o = call(WindowFilter, styled(rng, style), order, normal)
        if not ctx.expect(not o.error, "construction raised an error", lambda: dict(style=style, order=order, observed=repr(o))):
            continue
        g = (order + 1) / sums[(style, order)] if normal else 1.0
        for k, (e, r) in enumerate(zip(session["ev"], results)):
            x = signal_of(e["x"], 1.0, e["form"])
            if e["dim"] != 1:
                a = numpy.array(x)
                x = a.reshape({0: (1, -1), 2: (-1, 1), 3: (1, 1, -1)}[e["dim"]]) if len(a) else numpy.zeros((order + 1, 0))
                x = x if rng.random() < 0.7 else x.tolist()
            y = call(o.value.filter, x)
            detail = lambda: dict(style=style, order=order, normal=normal, event=dict(e), observed=repr(y), call=k)
            if not r["accept"]:
                ok = ctx.expect(bool(y.error), "a signal of another shape is rejected", detail)
            else:
                expected = [cyc(u, max(order, 1)) / 100.0 * g for u in r["y"]] if style != "Kaiser" else [complex(*v) * kaiser(*a) * g for v, a in r["y"]]
                tol = 1e-9
                ok = ctx.expect(not y.error and close_all(y.value, expected, tol, 50.0 * g), "output is the product of signal and window", detail)
            if not ok:
                break
            ctx.count("calls compared")
    for style, order in (("Welch", 3), ("", 3), ("Hann ", 3), ("Hann", -1), ("Kaiser", -5), ("Boxcar", 2)):
        ctx.expect(bool(call(WindowFilter, style, order).error), "arguments out of range are rejected", dict(style=style, order=order))
    ctx.sample({k: v for k, v in sessions[0].items()})
