"""C31 A rejected call raises an error and leaves the component unchanged."""

from common import *
from components import KINDS, Call
from sessions import Session, sweep


def run(ctx):
    rng = ctx.rng
    rows = ctx.explore("ComponentMC", dict(Depth=str(ctx.pick(5, 6)), Acts='{"reject", "badnew"}', Instances="1", Slots="1", Ops="1..2", Recipes="{1}"),
                       invariants=("Determined", "ResultOfHistory"), properties=("Isolation", "Immutable"), label="every position of a rejected call")
    rows = [r for r in rows if any(a["op"] in ("reject", "badnew") for a in r["plan"])]
    ctx.count("plans of the specification", len(rows))
    traces = []
    for kind, some in sweep(ctx, rows, ctx.pick(120, 1500), ctx.pick(8, 40), ("new", "reject", "badnew"), ctx.pick(30, 300), share=False):
        traces += some
    # Models reject a prediction before they are fitted, whatever was rejected before.
    for kind in KINDS:
        if hasattr(kind, "first"):
            for _ in range(ctx.pick(10, 60)):
                s = Session(kind, rng, share=False)
                s.fit = False
                s.new(1, 1)
                for _ in range(rng.randint(1, 3)):
                    c = s.call_of(1) if rng.random() < 0.6 else kind.bad(rng, s.recipe(1))
                    o = c.clone().apply(s.obj[1])
                    s.log("reject", 1, 1, e=o.error)
                s.call(1, 0) if s.calls.setdefault(0, kind.first(rng, s.recipe(1))) else None
                for n in (1, 1):
                    if not s.failed:
                        s.call(1, n)
                s.new(101, 1, fresh=True)
                for n in (0, 1, 1):
                    if not s.failed:
                        s.call(101, n, fresh=True)
                traces.append(s.trace)
    # A diversity model that has seen samples of one dimension rejects any other.
    for _ in range(ctx.pick(20, 200)):
        traces.append(dimension(rng))
    ctx.sample(traces[0])
    ctx.judge("ComponentTrace", traces, dict(InitOf="<- XInit", StepOf="<- XStep"), label="every kind of component")


def dimension(rng):
    kind = next(k for k in KINDS if k.name == "diversity")
    s = Session(kind, rng, share=False)
    s.new(1, 1)
    s.calls = {n: kind.op(rng, s.recipe(1)) for n in (1, 3)}
    for k in range(rng.randint(2, 6)):
        if s.failed:
            break
        s.call(1, rng.choice((1, 3)))
        if not s.failed:
            n = rng.choice((1, 3, 4))
            bad = Call("fit", numpy.array([[rng.uniform(-9, 9) for _ in range(n)] for _ in range(rng.randint(1, 4))]))
            o = bad.apply(s.obj[1])
            s.log("reject", 1, 1, e=o.error)
    h = s.history[1]
    s.new(101, 1, fresh=True)
    for n in h[1:]:
        if not s.failed:
            s.call(101, n, fresh=True)
    return s.trace
