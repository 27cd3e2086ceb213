"""C32 Arguments are never modified, and instances never influence each other."""

from common import *
from components import KINDS, snapshot
from sessions import sweep


def strange(rng, v):
    """The same arrays and lists with numbers in them that code may be tempted to clean or to clip."""

    if isinstance(v, numpy.ndarray) and v.dtype.kind in "fc" and v.size > 1 and v.flags.writeable:
        for _ in range(rng.choice((1, 1, 2))):
            v.flat[rng.randrange(v.size)] = rng.choice((1e-15, -1e-13, 1e-300, -0.0, 5e-324, 1e-9, 1e13, -1e200))
    elif isinstance(v, list) and len(v) > 1 and all(isinstance(x, float) for x in v):
        v[rng.randrange(len(v))] = rng.choice((1e-15, -0.0, 1e-300, 1e-9, -1e200))
    elif isinstance(v, list):
        for x in v:
            strange(rng, x)


def unusual(ctx, kind):
    """Whatever a call makes of such numbers, it leaves them to its caller as they were."""

    rng = ctx.rng
    recipe = kind.recipe(rng)
    o = kind.make(recipe)
    if o.error:
        return
    for _ in range(3):
        c = kind.op(rng, recipe)
        for v in (*c.args, *c.kw.values()):
            strange(rng, v)
        before = snapshot([c.args, c.kw])
        text = repr(c)[:600]
        c.apply(o.value)
        ctx.expect(snapshot([c.args, c.kw]) == before, "a call modified an argument", lambda: dict(kind=kind.name, call=text, after=repr(c)[:600]))
        ctx.count("calls with unusual numbers")


def run(ctx):
    rows = ctx.explore("ComponentMC", dict(Depth=str(ctx.pick(4, 5)), Acts='{"new", "scribble", "spoil"}', Instances="3", Slots="1", Ops="1..2", Recipes="{1, 2}"),
                       invariants=("Determined", "ResultOfHistory"), properties=("Isolation", "Immutable"), label="every interleaving")
    ctx.count("plans of the specification", len(rows))
    traces = []
    for kind, some in sweep(ctx, rows, ctx.pick(120, 1200), ctx.pick(8, 40), ("new", "scribble", "scribblenew", "spoil"), ctx.pick(30, 300)):
        traces += some
    for _ in range(ctx.pick(4, 40)):
        for kind in KINDS:
            unusual(ctx, kind)
    ctx.sample(traces[0])
    ctx.judge("ComponentTrace", traces, dict(InitOf="<- XInit", StepOf="<- XStep"), label="every kind of component")
