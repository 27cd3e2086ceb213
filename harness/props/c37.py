"""C37 Threads which use instances of their own."""

import copy

import components
from common import *
from components import KINDS, Call, Static, snapshot
from engine import HANGS
from overlap import Schedule, alone
from sessions import Names


class Codec(Static):
    """Texts that are decoded, and codes of texts."""

    name, cls = "serial", "Serial"

    def recipe(self, rng):
        return self.cls, {}

    def op(self, rng, recipe):
        from diamondback import Serial

        r = rng.random()
        text = "".join(rng.choice("abcxyz") for _ in range(rng.randint(1, 40)))
        if r < 0.3:
            return Call("code", text)
        x = rng.choice((text, [1, 2, text], rng.randint(0, 99), {"k": [text, rng.random()]}))
        if r < 0.5:
            return Call("encode", x, False)
        return Call("decode", Serial.encode(x, r < 0.75))


def operation(rng, kind, recipe):
    while True:
        c = kind.control(rng, recipe) if hasattr(kind, "control") and rng.random() < 0.2 else None
        c = c or kind.op(rng, recipe)
        # The training of mixtures draws from a generator that threads share.
        if kind.name == "mixture" and c.method == "fit":
            continue
        if sum(numpy.size(a) for a in c.args if not isinstance(a, (str, dict))) < 200:
            return c


def long(recipe):
    return any(numpy.size(v) > 40 for v in recipe[1].values()) or recipe[1].get("order", 0) in (15, 16, 31, 63, 64, 100, 128, 511)


class Party:
    """What one thread does: a recipe, the calls that make the instance ready, and operations that overlap with others."""

    def __init__(self, rng, kind, n, ops):
        self.kind, self.n = kind, n
        self.recipe = kind.recipe(rng)
        while long(self.recipe):
            self.recipe = kind.recipe(rng)
        self.first = kind.first(rng, self.recipe) if hasattr(kind, "first") else None
        self.inside = rng.random() < 0.35 and self.first is None and kind.name != "polyphase"
        count = ops - 1 if self.inside else ops
        self.calls = [operation(rng, kind, self.recipe) for _ in range(max(count, 0))]
        # A further call shows the condition that was left behind.
        self.after = operation(rng, kind, self.recipe)

    def twin(self):
        p = copy.copy(self)
        return p


def record(ev, names, op, i, n, o, kept=True):
    ev.append(dict(op=op, i=i, n=n, y=names.of(o) if op == "call" else 0, e=o.error or "", kept=bool(kept)))


def gather(rng, kinds, ops):
    parties = []
    for t, kind in enumerate(kinds, 1):
        if t > 1 and kind is kinds[0] and rng.random() < 0.4:
            # The same arguments, held by the same arrays, for an instance of its own.
            parties.append(parties[0].twin())
        else:
            parties.append(Party(rng, kind, t, ops))
    return parties


def session(ctx, rng, parties, plan, steps, opcodes, where=None):
    """The outcomes of operations alone, then overlapping as the plan has it, at lines drawn or given."""

    kinds = [p.kind for p in parties]
    ev, names, lines = [], Names(), []
    notes = dict(kinds=[k.name for k in kinds], plan=plan, recipes=[repr(p.recipe)[:200] for p in parties], calls=[[repr(c)[:120] for c in p.calls] for p in parties])
    trace = dict(cfg=dict(kind=kinds[0].name), ev=ev, note=notes)
    number = {}
    for t, p in enumerate(parties, 1):
        base = 10 * p.n
        o, count = alone(lambda: p.kind.make(copy.deepcopy(p.recipe)).value, opcodes)
        made = p.kind.make(copy.deepcopy(p.recipe))
        record(ev, names, "new", t, p.n, made)
        if made.error:
            return trace
        counts = [count] if p.inside else []
        if p.first:
            record(ev, names, "call", t, base + 9, p.first.clone().apply(made.value))
        for k, c in enumerate(p.calls, 1):
            c = c.clone()
            o, count = alone(lambda: raised(c.apply(made.value)), opcodes)
            record(ev, names, "call", t, base + k, o)
            counts.append(count)
        record(ev, names, "call", t, base + 8, p.after.clone().apply(made.value))
        lines.append(counts)
    if any(e["e"] for e in ev):
        return trace
    objects, programs = {}, []
    for t, p in enumerate(parties, 1):
        if not p.inside:
            made = p.kind.make(p.recipe)
            objects[t] = made.value
            record(ev, names, "new", 100 + t, p.n, made)
            if p.first:
                record(ev, names, "call", 100 + t, 10 * p.n + 9, p.first.clone().apply(made.value))
        programs.append(program(p, t, objects))
    before = snapshot([[p.recipe[1], [[c.args, c.kw] for c in p.calls]] for p in parties])
    at = {}
    for t, counts in enumerate(lines):
        for o, n in enumerate(counts, 1):
            marks = sorted(rng.randint(1, max(n, 1)) for _ in range(steps - 1))
            at.update({(t + 1, o, k): m for k, m in enumerate(marks, 1)})
    at.update(where or {})
    notes["lines"] = lines
    stops = [(t - 1, o, at[(t, o, k)] if k < steps else None) for t, o, k in plan]
    notes["stops"] = [[t + 1, o, "end" if line is None else f"line {line}"] for t, o, line in stops]
    s = Schedule(programs, stops, opcodes)
    ended = s.run()
    kept = snapshot([[p.recipe[1], [[c.args, c.kw] for c in p.calls]] for p in parties]) == before
    ctx.count("preemptions", s.preempted)
    if s.free and not ended:
        HANGS.append(notes)
        ctx.expect(False, "a call never returns when calls on other instances overlap with it", lambda: notes)
        return trace
    for t, p in enumerate(parties, 1):
        k = 0
        for o in s.results[t - 1]:
            if p.inside and t not in number:
                number[t] = True
                record(ev, names, "new", 100 + t, p.n, o, kept)
            else:
                k += 1
                record(ev, names, "call", 100 + t, 10 * p.n + k, o, kept)
        if not any(o.error for o in s.results[t - 1]):
            record(ev, names, "call", 100 + t, 10 * p.n + 8, p.after.clone().apply(objects[t]))
    ctx.count("calls that overlapped", sum(len(r) for r in s.results))
    return trace


class Raised(Exception):
    pass


def raised(o):
    if o.error:
        raise Raised(f"{o.error} {o.message}")
    return o.value


def program(p, t, objects):
    out = []
    if p.inside:
        def make():
            objects[t] = raised(p.kind.make(p.recipe))
            return 0
        out.append(make)
    for c in p.calls:
        out.append(lambda c=c: raised(c.apply(objects[t])))
    return out


def run(ctx):
    rng = ctx.rng
    kinds = KINDS + [Codec()]
    rows = ctx.explore("ParallelMC", dict(Threads=2, Ops=1, Steps=2, Preemptions=1), invariants=("Independent", "Conditions", "Undisturbed"), properties=("Separate",), spec="Spec", label="one interruption")
    # A call is interrupted by a whole call, at every line in turn.
    row = [r for r in rows if r["telling"] and r["plan"] == [[1, 1, 1], [2, 1, 2], [1, 1, 2]]][0]
    traces = []
    for kind in kinds:
        for _ in range(1 if kind.slow else ctx.pick(2, 12)):
            if len(HANGS) >= 3:
                break
            parties = gather(rng, [kind, kind], 1)
            line, end = 1, 1
            while line <= end:
                t = session(ctx, rng, parties, row["plan"], 2, False, {(1, 1, 1): line})
                traces.append(t)
                lines = t["note"].get("lines")
                end = lines[0][0] if lines else 0
                most = 12 if kind.slow else 60
                line += 1 if end <= most else rng.randint(1, 2 * end // most)
    ctx.judge("ComponentTrace", traces, dict(InitOf="<- XInit", StepOf="<- XStep"), label="every line")
    for threads, ops, steps, cuts, each in ((2, 2, 4, ctx.pick(2, 3), ctx.pick(80, 600)), (3, 1, 4, ctx.pick(2, 3), ctx.pick(24, 200))):
        rows = ctx.explore("ParallelMC", dict(Threads=threads, Ops=ops, Steps=steps, Preemptions=cuts), invariants=("Independent", "Conditions", "Undisturbed"),
                           properties=("Separate",), spec="Spec", label=f"{threads} threads")
        telling = [r for r in rows if r["telling"]]
        ctx.count("schedules of the specification", len(rows))
        ctx.count("schedules that tell shared work from separate work", len(telling))
        traces = []
        for kind in kinds:
            n = each // 8 if kind.slow else each // 3 if kind.name in ("fir", "polyphase") else each
            if len(HANGS) >= 3:
                break
            for row in rng.sample(telling, min(n, len(telling))):
                others = [kind if rng.random() < 0.75 else rng.choice([k for k in kinds if not k.slow]) for _ in range(threads - 1)]
                traces.append(session(ctx, rng, gather(rng, [kind] + others, ops), row["plan"], steps, rng.random() < 0.15))
        ctx.sample(traces[0])
        ctx.judge("ComponentTrace", traces, dict(InitOf="<- XInit", StepOf="<- XStep"), label=f"{threads} threads")
