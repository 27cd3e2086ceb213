"""Runs plans of the specification Component on real components, and records what happened."""

import copy

import numpy

from components import KINDS, Call, scribble, snapshot
from engine import call


class Names:
    """Names results by numbers: results of equal shape whose values agree to rounding share a name."""

    def __init__(self):
        self.known, self.n = {}, 0

    def of(self, o):
        if o.error:
            return 0
        parts, shape = [], []
        if not _flatten(o.value, parts, shape):
            return self._new(repr(o.value), None)
        return self._new("".join(shape), numpy.concatenate(parts) if parts else numpy.zeros(0))

    def _new(self, key, a):
        for b, n in self.known.get(key, ()):
            if a is None or _agree(a, b):
                return n
        self.n += 1
        self.known.setdefault(key, []).append((a, self.n))
        return self.n


def _agree(a, b):
    if numpy.array_equal(a, b, equal_nan=True):
        return True
    with numpy.errstate(all="ignore"):
        return bool(((a == b) | (numpy.isnan(a) & numpy.isnan(b)) | (abs(a - b) <= 1e-9 * numpy.maximum(1.0, abs(b)))).all())


def _flatten(v, parts, shape):
    if v is None:
        shape.append("none")
        return True
    if isinstance(v, (tuple, list)) and any(isinstance(x, (tuple, list, numpy.ndarray)) for x in v):
        shape.append("(")
        ok = all(_flatten(x, parts, shape) for x in v)
        shape.append(")")
        return ok
    try:
        a = numpy.asarray(v)
        if a.dtype.kind not in "biufc":
            return False
        shape.append(f"{a.shape}{'c' if a.dtype.kind == 'c' else 'r'}")
        parts.append(a.astype(complex).ravel())
        return True
    except Exception:
        return False


class Session:
    """One plan on one kind of component."""

    def __init__(self, kind, rng, serial=None, share=True):
        self.kind, self.rng, self.serial, self.share = kind, rng, serial, share
        self.names = Names()
        self.recipes = {}      # recipe number -> pristine recipe
        self.live_recipes = {}  # recipe number -> the recipe whose arrays were handed out
        self.calls = {}        # call number -> pristine call
        self.live_calls = {}   # call number -> the call whose arrays were handed out
        self.obj, self.history = {}, {}
        self.text, self.slots = {}, {}
        self.results = []
        self.trace = dict(cfg=dict(kind=kind.name), ev=[], note={})
        self.fit = hasattr(kind, "first")
        self.failed = False

    # -- vocabulary -----------------------------------------------------------------------------------------------
    def recipe(self, n):
        if n not in self.recipes:
            # Every recipe of a session accepts the same calls.
            base = self.recipes.get(1)
            r = self.kind.recipe(self.rng)
            if base is not None:
                for _ in range(200):
                    if fits(self.kind, base, r):
                        break
                    r = self.kind.recipe(self.rng)
                else:
                    r = copy.deepcopy(base)
            self.recipes[n] = r
        return self.recipes[n]

    def call_of(self, n):
        if n not in self.calls:
            c = None
            if n == 0 and self.fit:
                c = self.kind.first(self.rng, self.recipe(1))
            elif n == 2 or (n > 2 and self.rng.random() < 0.4):
                c = self.kind.control(self.rng, self.recipe(1)) if hasattr(self.kind, "control") and self.rng.random() < 0.7 else None
            self.calls[n] = c or self.kind.op(self.rng, self.recipe(1))
        return self.calls[n]

    def log(self, op, i=0, n=0, y=0, e="", kept=True):
        self.trace["ev"].append(dict(op=op, i=i, n=n, y=y, e=e or "", kept=bool(kept)))
        if (e and op not in ("reject", "badnew")) or not kept:
            self.failed = True

    # -- actions --------------------------------------------------------------------------------------------------
    def new(self, i, n, fresh=False):
        pristine = self.recipe(n)
        if fresh or not self.share:
            used = copy.deepcopy(pristine)
        else:
            used = self.live_recipes.setdefault(n, copy.deepcopy(pristine))
        before = snapshot([used[1]])
        o = self.kind.make(used)
        kept = snapshot([used[1]]) == before
        self.log("new", i, n, e=o.error, kept=kept)
        if not o.error:
            self.obj[i], self.history[i] = o.value, [n]
            if self.fit:
                self.call(i, 0, fresh)

    def call(self, i, n, fresh=False):
        pristine = self.call_of(n)
        used = pristine.clone() if fresh or not self.share else self.live_calls.setdefault(n, pristine.clone())
        before = snapshot([used.args, used.kw])
        o = used.apply(self.obj[i])
        kept = snapshot([used.args, used.kw]) == before
        y = self.names.of(o)
        self.log("call", i, n, y, o.error, kept)
        self.history[i].append(n)
        if not fresh and not o.error:
            self.results.append((n, o.value))
        return o

    def encode(self, i, n):
        from diamondback import Serial

        o = call(Serial.encode, self.obj[i], self.rng.random() < 0.5)
        self.text[n], self.slots[n] = o.value, list(self.history.get(i, ()))
        self.log("encode", i, n, e=o.error)

    def decode(self, i, n):
        from diamondback import Serial

        o = call(Serial.decode, self.text[n])
        if not o.error:
            self.obj[i], self.history[i] = o.value, list(self.slots[n])
        self.log("decode", i, n, e=o.error)

    def reject(self, i, n):
        c = self.kind.bad(self.rng, self.recipe(1))
        before = snapshot([c.args, c.kw])
        text = repr(c)
        o = c.apply(self.obj[i])
        self.log("reject", i, n, e=o.error, kept=snapshot([c.args, c.kw]) == before)
        self.trace["note"].setdefault("invalid", []).append(text[:120])

    def badnew(self):
        r = self.kind.badnew(self.rng)
        if r is None:
            return
        o = self.kind.make(r)
        self.log("badnew", 0, 1, e=o.error)
        self.trace["note"].setdefault("invalid", []).append(repr(r)[:160])

    def scribble(self, n):
        used = self.live_calls.pop(n, None)
        if used is not None:
            scribble(used.args, self.rng)
            scribble(used.kw, self.rng)
        for k, value in self.results:
            if k == n:
                scribble(value, self.rng)
        self.results = [r for r in self.results if r[0] != n]
        self.log("scribble", 0, n)

    def scribblenew(self):
        for n in list(self.live_recipes):
            scribble(self.live_recipes.pop(n)[1], self.rng)
        self.log("scribble", 0, 1)

    def spoil(self, i):
        """The caller overwrites the arrays among the attributes of an instance, and gives it up."""

        for name in ("a", "b", "s"):
            o = call(getattr, self.obj[i], name)
            if not o.error:
                scribble(o.value, self.rng)
        del self.obj[i], self.history[i]
        self.log("spoil", i)

    # -- sessions -------------------------------------------------------------------------------------------------
    def act(self, a):
        op = a["op"]
        if op == "new":
            self.new(a["i"], a["n"])
        elif op == "call":
            self.call(a["i"], a["n"])
        elif op == "encode":
            self.encode(a["i"], a["n"])
        elif op == "decode":
            self.decode(a["i"], a["n"])
        elif op == "reject":
            self.reject(a["i"], a["n"])
        elif op == "badnew":
            self.badnew()
        elif op == "scribble":
            self.scribble(a["n"])
        elif op == "scribblenew":
            self.scribblenew()
        elif op == "spoil":
            self.spoil(a["i"])

    def run(self, plan, probes=(1, 2, 1)):
        self.new(1, 1)
        for a in plan:
            if self.failed:
                break
            self.act(a)
        for i in sorted(self.obj):
            for n in probes:
                if not self.failed:
                    self.call(i, n)
        # A twin of every instance is made anew and given the same calls, and nothing else.
        if not self.failed:
            for i in sorted(self.history):
                h = list(self.history[i])
                self.new(100 + i, h[0], fresh=True)
                for n in h[2 if self.fit else 1:]:
                    if self.failed:
                        break
                    self.call(100 + i, n, fresh=True)
        self.trace["note"].update(recipes={k: repr(v)[:300] for k, v in self.recipes.items()}, calls={k: repr(v)[:300] for k, v in self.calls.items()})
        return self.trace


def fits(kind, base, other):
    """Whether calls chosen for one recipe are valid for another."""

    def shape(r):
        kw = r[1]
        return [(k, len(v)) if hasattr(v, "__len__") and not isinstance(v, str) else (k, v) if k in ("order", "style", "derivative") else k for k, v in sorted(kw.items())]

    if kind.name in ("fir", "iir", "rank", "window", "derivative", "pid", "goertzel"):
        return shape(base) == shape(other) or (kind.name in ("rank", "derivative") and base[1]["order"] == other[1]["order"])
    return True


def random_plan(rng, length, acts, instances=4, slots=3, ops=4, recipes=2):
    """A random behaviour of the specification."""

    plan, live, used, gone = [], 1, 0, set()
    while len(plan) < length:
        a = rng.choice(("call", "call", "call") + tuple(acts))
        i = rng.randint(1, live)
        if a in ("call", "encode", "reject", "spoil") and i in gone:
            continue
        if a == "call":
            plan.append(dict(op="call", i=i, n=rng.randint(1, ops)))
        elif a == "spoil" and len(gone) < live - 1:
            gone.add(i)
            plan.append(dict(op="spoil", i=i, n=0))
        elif a == "new" and live < instances:
            live += 1
            plan.append(dict(op="new", i=live, n=rng.randint(1, recipes)))
        elif a == "encode" and used < slots:
            used += 1
            plan.append(dict(op="encode", i=i, n=used))
        elif a == "decode" and used and live < instances:
            live += 1
            plan.append(dict(op="decode", i=live, n=rng.randint(1, used)))
        elif a == "reject":
            plan.append(dict(op="reject", i=i, n=1))
        elif a in ("badnew", "scribblenew"):
            plan.append(dict(op=a, i=0, n=1))
        elif a == "scribble":
            plan.append(dict(op="scribble", i=0, n=rng.randint(1, ops)))
    return plan


def sweep(ctx, rows, limit, slow_limit, acts, extra, kinds=KINDS, **kw):
    """Runs plans of the specification, and random longer ones, on every kind; TLC decides what was recorded."""

    plans = [row["plan"] for row in rows]
    for kind in kinds:
        rng, traces = ctx.rng, []
        n = slow_limit if kind.slow else limit
        chosen = plans if len(plans) <= n else rng.sample(plans, n)
        for plan in chosen:
            traces.append(Session(kind, rng, **kw).run(plan))
        ctx.count("plans run", len(chosen))
        for _ in range(extra // (10 if kind.slow else 1)):
            traces.append(Session(kind, rng, **kw).run(random_plan(rng, rng.randint(8, 25), acts), probes=(1, 2, 3, 1)))
        ctx.count("calls", sum(len(t["ev"]) for t in traces))
        yield kind, traces
