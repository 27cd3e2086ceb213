"""C01 Streaming equivalence."""

from common import *
from components import KINDS, Call


class Names:
    """Names output values by numbers; values that agree to rounding share a name."""

    def __init__(self):
        self.exact, self.values = {}, numpy.zeros((0, 3), complex)

    def of(self, value):
        v = tuple(complex(x) for x in value)
        if v in self.exact:
            return self.exact[v]
        a = numpy.zeros(3, complex)
        a[:len(v)] = v
        n = len(self.values)
        if n and numpy.isfinite(a).all():
            near = (abs(self.values - a) <= 1e-8 * numpy.maximum(1.0, abs(a))).all(axis=1)
            if near.any():
                n = int(near.argmax())
        if n == len(self.values):
            self.values = numpy.vstack((self.values, a))
        self.exact[v] = n + 1
        return n + 1


def outputs(o):
    """The sequence of outputs of a call: tuples of one value or several."""

    y = o.value
    if isinstance(y, tuple):
        y = [numpy.asarray(v) for v in y]
        if len({v.shape for v in y}) != 1 or y[0].ndim != 1:
            return [(float(len(y)), 0.5)]
        return list(zip(*y))
    y = numpy.asarray(y)
    return [(v,) for v in y] if y.ndim == 1 else [(0.25, 0.5)]


def feed(kind, obj, x, names):
    if kind.name == "exponential" and not isinstance(x, list):
        x = numpy.array(x)
    o = Call("filter", x).apply(obj)
    if o.error:
        return dict(op="feed", n=len(x), y=[], e=o.error)
    try:
        return dict(op="feed", n=len(x), y=[names.of(v) for v in outputs(o)], e="")
    except Exception as ex:
        return dict(op="feed", n=len(x), y=[], e=f"unreadable result {type(ex).__name__}")


def family(ctx, kind, recipe, shape, plans, rng):
    """One signal with its controls, presented in every one of the given groupings."""

    # shape: for every unit a number of samples, or None for a control.
    total = sum(u for u in shape if u)
    x = kind.signal(rng, total, recipe)
    controls = [kind.control(rng, recipe) if u is None else None for u in shape]
    names = Names()
    trace = dict(cfg=dict(kind=kind.name), ev=[], note=dict(recipe=repr(recipe), controls=[repr(c) for c in controls if c], signal=repr(x)[:600]))
    reference = [([1] * u if u else None) for u in shape]
    for plan in [reference] + plans:
        trace["ev"].append(dict(op="begin", n=0, y=[], e=""))
        o = kind.make(recipe)
        if o.error:
            trace["ev"].append(dict(op="feed", n=1, y=[], e=o.error))
            return trace
        at = 0
        for k, sizes in enumerate(plan):
            if sizes is None:
                c = controls[k].clone().apply(o.value)
                trace["ev"].append(dict(op="control", n=0, y=[], e=c.error or ""))
                continue
            for n in sizes:
                trace["ev"].append(feed(kind, o.value, x[at: at + n], names))
                at += n
                if trace["ev"][-1]["e"]:
                    return trace
        ctx.count("calls", len(plan))
    trace["ev"].append(dict(op="begin", n=0, y=[], e=""))
    ctx.count("runs compared", len(plans))
    return trace


def blocks(rng, n):
    """Partitions a length into blocks of one size and a remainder, or into uneven parts."""

    if rng.random() < 0.5:
        size = rng.choice((2, 16, 32, 50, 64, 128, 256))
        return [size] * (n // size) + ([n % size] if n % size else [])
    cuts = sorted({rng.randint(1, n - 1) for _ in range(rng.randint(1, 6))})
    return [b - a for a, b in zip([0] + cuts, cuts + [n])]


def run(ctx):
    rng = ctx.rng
    n, c = ctx.pick((6, 2), (8, 2))
    rows = ctx.explore("StreamMC", dict(Samples=str(n), Controls=str(c)), invariants=("Equivalent", "FreeOutput"), properties=("Past",), label="every partition")
    # Group the plans by where their controls lie: each group presents one signal in every partition.
    groups = {}
    for row in rows:
        shape, calls, since = [], [], []
        for k in row["calls"]:
            if k:
                since.append(k)
            else:
                if since:
                    shape.append(sum(since))
                    calls.append(since)
                shape.append(None)
                calls.append(None)
                since = []
        if since:
            shape.append(sum(since))
            calls.append(since)
        groups.setdefault(tuple(shape), []).append(calls)
    ctx.count("plans of the specification", len(rows))
    ctx.count("arrangements of controls", len(groups))
    kinds = [k for k in KINDS if k.streaming and k.name != "diversity"]
    traces = []
    for shape, plans in sorted(groups.items(), key=repr):
        for kind in kinds:
            if None in shape and kind.name == "integral":
                continue
            if None in shape and not ctx.thorough and rng.random() < 0.5:
                continue
            recipe = kind.recipe(rng)
            # A continuation is presented in one call after everything else.
            traces.append(family(ctx, kind, recipe, list(shape) + [5], [p + [[5]] for p in plans], rng))
    ctx.sample(traces[0])
    ctx.judge("StreamTrace", traces, dict(InitOf="<- XInit", StepOf="<- XStep"), label="every partition of every kind")
    # Longer signals, more controls, random groupings.
    traces = []
    for k in range(ctx.pick(60, 600)):
        for kind in kinds:
            shape = []
            for _ in range(rng.randint(1, 5)):
                shape.append(rng.choice((1, 2, 7, 16, 31, 40)))
                if kind.name != "integral" and rng.random() < 0.6:
                    shape.append(None)
            shape.append(9)
            plans = [[partition(rng, u) if u else None for u in shape] for _ in range(4)]
            traces.append(family(ctx, kind, kind.recipe(rng), shape, plans, rng))
    ctx.judge("StreamTrace", traces, dict(InitOf="<- XInit", StepOf="<- XStep"), label="random groupings")
    # Signals of thousands of samples in few and long groups.
    traces = []
    for k in range(ctx.pick(2, 12)):
        for kind in kinds:
            shape = []
            for _ in range(rng.randint(1, 3)):
                shape.append(rng.choice((63, 64, 65, 100, 128, 129, 255, 256, 257, 300, 512, 600, 1024, 1025)))
                if kind.name != "integral" and rng.random() < 0.4:
                    shape.append(None)
            shape.append(70)
            plans = [[([u] if j == 0 else blocks(rng, u)) if u else None for u in shape] for j in range(3)]
            traces.append(family(ctx, kind, kind.recipe(rng), shape, plans, rng))
    ctx.judge("StreamTrace", traces, dict(InitOf="<- XInit", StepOf="<- XStep"), label="long signals")
    ctx.assumptions.append("outputs are compared to 1e-8 relative: a regrouping may round differently in the last digits")
