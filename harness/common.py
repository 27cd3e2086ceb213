"""Shared pieces of the property modules: exact signals, their representations, observations, and random sessions."""

import numpy

from engine import NAN, call, snap, snapc


def is_real(pairs):
    return all(p[1] == 0 for p in pairs)


def signal_of(pairs, scale=1.0, form="float64"):
    """Represents an exact signal (a list of [re, im]) as a caller might present it."""

    re = [p[0] * scale for p in pairs]
    if not is_real(pairs) or form.startswith("complex"):
        z = [complex(p[0] * scale, p[1] * scale) for p in pairs]
        if form in ("list", "tuple"):
            return list(z) if form == "list" else tuple(z)
        if form == "mixed":
            return [v if v.imag else v.real for v in z]
        a = numpy.array(z, complex)
        if form == "complex64":
            b = a.astype(numpy.complex64)
            return b if (b == a).all() else a
        return _layout(a, form)
    whole = all(float(v).is_integer() and abs(v) < 2**31 for v in re)
    if form == "ints" and whole:
        return [int(v) for v in re]
    if form in ("list", "mixed", "ints"):
        return [float(v) for v in re]
    if form == "tuple":
        return tuple(float(v) for v in re)
    a = numpy.array(re, float)
    if form in ("int64", "int32", "int16", "int8", "uint8", "uint16", "bool") and whole:
        b = a.astype(form)
        return b if (b.astype(float) == a).all() else a
    if form in ("float32", "float16"):
        b = a.astype(form)
        return b if (b.astype(float) == a).all() else a
    return _layout(a, form)


def _layout(a, form):
    if form == "strided":
        b = numpy.zeros(2 * len(a), a.dtype)
        b[::2] = a
        b[1::2] = 7.25
        return b[::2]
    if form == "reversed":
        return numpy.array(a[::-1])[::-1]
    if form == "readonly":
        a.flags.writeable = False
        return a
    if form == "bigendian":
        return a.astype(a.dtype.newbyteorder(">"))
    return a


FORMS = ("float64", "list", "tuple", "int64", "int32", "int16", "int8", "uint8", "uint16", "float32", "ints", "mixed", "strided", "reversed",
         "readonly", "complex128", "complex64")
REAL_FORMS = tuple(f for f in FORMS if not f.startswith("complex"))


def form_of(rng, real_only=False):
    return rng.choice(REAL_FORMS if real_only else FORMS)


DOUBLE_FORMS = tuple(f for f in FORMS if f not in ("float32", "complex64"))


def scalar_of(pair, scale=1.0, form="float64"):
    """Represents an exact scalar as a caller might present it."""

    if pair[1] or form.startswith("complex"):
        z = complex(pair[0] * scale, pair[1] * scale)
        return numpy.complex64(z) if form == "complex64" and complex(numpy.complex64(z)) == z else z
    v = pair[0] * scale
    if form in ("ints", "int64", "int32") and float(v).is_integer() and abs(v) < 2**31:
        return int(v) if form == "ints" else numpy.dtype(form).type(int(v))
    return numpy.float64(v) if form == "float64" else float(v)


def pairs_of(y, unit=1.0, tol=1.0e-6):
    """Observes a signal as exact pairs."""

    try:
        y = numpy.asarray(y)
        if y.ndim != 1:
            return [[NAN, NAN]]
        return [snapc(v, unit, tol) for v in y]
    except Exception:
        return [[NAN, NAN]]


def ints_of(y, unit=1.0, tol=1.0e-6):
    """Observes a real signal as exact integers."""

    try:
        y = numpy.asarray(y)
        if y.ndim != 1:
            return [NAN]
        return [snap(v.real if abs(v.imag) == 0.0 else float("nan"), unit, tol) if numpy.iscomplexobj(y) else snap(v, unit, tol) for v in y]
    except Exception:
        return [NAN]


def partition(rng, n, style=None):
    """A random partition of n into consecutive positive chunk lengths."""

    style = style or rng.choice(("ones", "whole", "pairs", "random", "random", "skew", "fine"))
    if n <= 0:
        return []
    if style == "whole":
        return [n]
    if style == "ones":
        return [1] * n
    out = []
    while n:
        if style == "pairs":
            k = 2
        elif style == "skew":
            k = rng.choice((1, 1, n))
        elif style == "fine":
            k = rng.randint(1, 3)
        else:
            k = rng.randint(1, max(1, n // 2))
        k = min(k, n)
        out.append(k)
        n -= k
    return out


def gauss(rng, mag, real):
    return [rng.randint(-mag, mag), 0 if real else rng.randint(-mag, mag)]


def gaussians(rng, n, mag, real, kind=None):
    """A random exact signal with structure that random noise lacks."""

    kind = kind or rng.choice(("noise", "noise", "sparse", "constant", "steps", "ramp", "alternate", "zeros", "impulse"))
    if kind == "noise":
        return [gauss(rng, mag, real) for _ in range(n)]
    if kind == "sparse":
        return [gauss(rng, mag, real) if rng.random() < 0.15 else [0, 0] for _ in range(n)]
    if kind == "constant":
        v = gauss(rng, mag, real)
        return [list(v) for _ in range(n)]
    if kind == "steps":
        out, v = [], gauss(rng, mag, real)
        for _ in range(n):
            if rng.random() < 0.2:
                v = gauss(rng, mag, real)
            out.append(list(v))
        return out
    if kind == "ramp":
        a, b = rng.randint(-3, 3), rng.randint(-5, 5)
        c = 0 if real else rng.randint(-2, 2)
        return [[max(-mag, min(mag, a * k + b)), max(-mag, min(mag, c * k))] for k in range(n)]
    if kind == "alternate":
        v = gauss(rng, mag, real)
        return [[p * (-1) ** k for p in v] for k in range(n)]
    if kind == "impulse":
        out = [[0, 0] for _ in range(n)]
        if n:
            out[rng.randrange(n)] = gauss(rng, mag, real)
        return out
    return [[0, 0] for _ in range(n)]


HUGE = (100, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 2048, 3000, 4095, 4096, 4097)


def lengths(rng, count=4):
    """Chunk lengths of a session that presents long signals: one or two long calls among short ones."""

    out = [rng.choice((1, 2, 5, 20)) for _ in range(rng.randint(1, count))]
    for _ in range(rng.randint(1, 2)):
        out.insert(rng.randint(0, len(out)), rng.choice(HUGE))
    return out


def kind_of(rng):
    return rng.choice(("noise", "noise", "sparse", "constant", "steps", "ramp", "alternate", "zeros", "impulse"))





def key_of(value):
    import json

    return json.dumps(value, sort_keys=True)


def walks(rows, rng, context=(), length=40):
    """Turns emitted transitions (fields f, a, t, and context fields) into walks from initial states that cover every one.

    Returns a list of (context, initial state, [action, ...]).
    """

    edges, initial, ctxt = {}, [], {}
    for row in rows:
        c = key_of([row[k] for k in context])
        ctxt[c] = [row[k] for k in context]
        if "init" in row:
            initial.append((c, key_of(row["init"]), row["init"]))
        else:
            edges.setdefault((c, key_of(row["f"])), []).append((row["a"], (c, key_of(row["t"]))))
    todo = {node: list(range(len(out))) for node, out in edges.items()}
    for node in todo:
        rng.shuffle(todo[node])
    remaining = sum(len(v) for v in todo.values())
    # Breadth-first tree from every initial state: how to reach each node.
    parent, order = {}, []
    for c, k, value in initial:
        node = (c, k)
        if node not in parent:
            parent[node] = (None, None, value)
            order.append(node)
    i = 0
    while i < len(order):
        node = order[i]
        i += 1
        for a, to in edges.get(node, ()):
            if to not in parent:
                parent[to] = (node, a, None)
                order.append(to)
    out, pending = [], [n for n in order if todo.get(n)]
    while pending:
        node = pending[-1]
        if not todo.get(node):
            pending.pop()
            continue
        path, at = [], node
        while parent[at][0] is not None:
            path.append(parent[at][1])
            at = parent[at][0]
        path.reverse()
        start = parent[at][2]
        here = node
        while len(path) < length or todo.get(here):
            if todo.get(here):
                k = todo[here].pop()
                remaining -= 1
            elif edges.get(here):
                k = rng.randrange(len(edges[here]))
                if len(path) >= length:
                    break
            else:
                break
            a, here = edges[here][k]
            path.append(a)
            if len(path) > 4 * length:
                break
        out.append((ctxt[node[0]], start, path))
    assert remaining == 0, remaining
    return out, sum(len(v) for v in edges.values())


def cyc(u, L):
    """Evaluates a formal sum of the specification Cyclo at zeta = exp(2 pi j / L)."""

    import cmath

    return sum((complex(c[0], c[1]) * cmath.exp(2j * cmath.pi * r / L) for r, c in enumerate(u) if c != [0, 0]), 0j)


def cys(terms, L):
    """Evaluates a formal sum given as terms [k, [re, im]]."""

    k = numpy.array([e[0] for e in terms]) % L
    c = numpy.array([complex(*e[1]) for e in terms])
    return complex(numpy.sum(c * numpy.exp(2j * numpy.pi * k / L))) if len(terms) else 0j


def close(observed, expected, tol=1.0e-9, scale=1.0):
    """Whether an observed number is an expected one, within a tolerance relative to a magnitude."""

    try:
        z = complex(observed)
    except Exception:
        return False
    return z == z and abs(z - expected) <= tol * max(abs(expected), scale)


def close_all(observed, expected, tol=1.0e-9, scale=None):
    try:
        y = list(numpy.asarray(observed))
    except Exception:
        return False
    if not isinstance(observed, numpy.ndarray) or len(y) != len(expected):
        return False
    if scale is None:
        scale = max([abs(v) for v in expected] + [1.0e-300])
    return all(close(a, b, tol, scale) for a, b in zip(y, expected))


def same(u, v):
    """Whether two observed results are identical in shape and value, bit for bit up to the sign of zero."""

    if isinstance(u, (tuple, list)) and isinstance(v, (tuple, list)):
        return len(u) == len(v) and all(same(a, b) for a, b in zip(u, v))
    try:
        a, b = numpy.asarray(u), numpy.asarray(v)
        return a.shape == b.shape and bool(numpy.array_equal(a, b, equal_nan=a.dtype.kind in "fc"))
    except Exception:
        return u is v
