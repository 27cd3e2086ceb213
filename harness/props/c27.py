"""C27 Serialization round-trips any object graph, compressed or not."""

import base64
import collections
import datetime
import decimal
import fractions
import gzip
import pickle
import uuid

from common import *

ALPHABET = set("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz!#$%&()*+-;<=>?@^_`{|}~")
ENCODINGS = ("utf-8", "ascii", "latin-1", "UTF-8", "cp1252", "utf8", "iso8859-15")


class Thing:
    """A user defined class."""


def atoms(rng):
    """Immutable values: nothing can tell two equal ones apart."""

    return [0, 1, -1, 2**31, -(2**63), 10**40, True, False, None, 0.0, -0.0, 1.5, float("inf"), -float("inf"), float("nan"), 5e-324, 1.7976931348623157e308,
            1j, complex(-0.0, 2.0), "", "a", "text", "ünï\u2028\U0001f600", "\x00\n\r", "x" * 300, "\ud800", b"", b"\x00\xff", b"." * 70, bytes(range(256)),
            (), frozenset(), frozenset((1, 2)), range(3, 9, 2), Ellipsis, datetime.date(2020, 2, 29), datetime.datetime(1999, 12, 31, 23, 59, 59, 999999),
            datetime.timedelta(1, 2, 3), decimal.Decimal("1.10"), fractions.Fraction(-2, 3), uuid.UUID(int=5), slice(1, None, 2), int, numpy.float64, len,
            numpy.float64(0.1), numpy.float32(0.1), numpy.int8(-3), numpy.uint64(2**64 - 1), numpy.bool_(True), numpy.complex64(1 + 2j), numpy.str_("s"),
            numpy.datetime64("2020-01-01"), "\x1f\x8b", b"\x1f\x8b\x08\x00", base64.b85encode(b"nested").decode(), 256, -257, 65536, 2**32, 1e300, "€"]


def arrays(rng):
    """Values with an identity and no children."""

    n = rng.randint(0, 40)
    return [numpy.arange(n), numpy.zeros((2, 3)), numpy.asfortranarray(numpy.arange(6.0).reshape(2, 3)), numpy.array([1 + 2j, numpy.nan]), numpy.array(3.5),
            numpy.zeros((0, 3)), numpy.array([True, False]), numpy.array(["ab", "c"]), numpy.arange(4, dtype=">i4"), numpy.arange(4, dtype="int8"),
            numpy.array([1.5, -0.0], numpy.float32), numpy.array([(1, 2.5)], dtype=[("a", "i4"), ("b", "f8")]), numpy.array([b"x", b"yz"]),
            numpy.linspace(0, 1, 500), numpy.random.RandomState(n).rand(3, 4, 2), numpy.arange(12)[::3], bytearray(b"abc"), {1, 2, 3}, {"a", "b"},
            collections.deque(maxlen=4), numpy.array(["2020-01-01"], "datetime64[D]"), numpy.array([1 + 1j], numpy.complex64)]


def key(v):
    """Identifies a value by type and content."""

    if isinstance(v, numpy.ndarray):
        v = v.astype(v.dtype.newbyteorder("="))  # pickle may present an array in the native byte order
        return ("array", v.dtype.descr if v.dtype.names else v.dtype.str, v.shape, v.tobytes())
    if isinstance(v, float):
        return (type(v).__name__, numpy.float64(v).tobytes())
    if isinstance(v, complex):
        return (type(v).__name__, numpy.complex128(v).tobytes())
    if type(v) is int:
        return ("int", hex(v))
    if isinstance(v, numpy.generic):
        return (type(v).__name__, v.dtype.str, v.tobytes())
    if isinstance(v, (set, frozenset)):
        return (type(v).__name__, tuple(sorted(map(repr, v))))
    if isinstance(v, collections.deque):
        return (type(v).__name__, repr(v), v.maxlen)
    return (type(v).__name__, repr(v))


def large(rng, thorough):
    """Values whose encodings are long, some compressible and some not."""

    out = ["x" * n for n in (255, 256, 1023, 4096, 65535, 65536, 131072)] + [bytes(rng.randrange(256) for _ in range(n)) for n in (255, 1000, 4095, 4096, 32768, 65536, 70001, 200000)]
    out += ["ü€" * 40000, 7**20000, -(3**4000), b"", numpy.random.RandomState(rng.randrange(99)).rand(300, 50), numpy.arange(100000), numpy.zeros((64, 64, 16), complex), bytearray(b"ab" * 50000),
            set(range(5000)), numpy.array(["word%d" % k for k in range(2000)])]
    if thorough:
        out += ["y" * 2**21, bytes(rng.randrange(256) for _ in range(2**20)), numpy.arange(2**20) * 1.1]
    return out


class Pool:
    """Numbers for atoms and arrays; equal content has equal numbers."""

    def __init__(self, rng):
        self.atoms, self.arrays, self.number = atoms(rng), arrays(rng), {}
        for v in self.atoms + self.arrays:
            self.number.setdefault(repr(key(v)), len(self.number) + 1)

    def add(self, v):
        self.number.setdefault(repr(key(v)), len(self.number) + 1)

    def of(self, v):
        return self.number.get(repr(key(v)), 0)


def build(g, pool, rng):
    """Builds the object graph of a graph of the specification: containers first, then tuples as their children exist."""

    obj = [None] * len(g)
    for i, node in enumerate(g):
        if node["a"]:
            obj[i] = node["value"]
        elif node["t"] == "list":
            obj[i] = []
        elif node["t"] == "dict":
            obj[i] = {}
        elif node["t"] == "object":
            obj[i] = Thing()
        elif node["t"] == "ordered":
            obj[i] = collections.OrderedDict()
        elif node["t"].startswith("array"):
            obj[i] = node["value"]
    pending = [i for i, node in enumerate(g) if node["t"] == "tuple" and not node["a"]]
    while pending:
        rest = []
        for i in pending:
            if any(c - 1 in pending for c in g[i]["k"]):
                rest.append(i)
            else:
                obj[i] = tuple(obj[c - 1] for c in g[i]["k"])
        if len(rest) == len(pending):
            return None
        pending = rest
    for i, node in enumerate(g):
        kids = [obj[c - 1] for c in node["k"]]
        if node["a"]:
            continue
        if node["t"] == "list":
            obj[i].extend(kids)
        elif node["t"] in ("dict", "ordered"):
            for j, v in enumerate(kids):
                obj[i][f"k{j}"] = v
        elif node["t"] == "object":
            for j, v in enumerate(kids):
                setattr(obj[i], f"k{j}", v)
    return obj[0]


def extract(x, pool):
    """Observes an object graph."""

    g, seen, keep = [], {}, []

    def visit(v):
        atom = pool.of(v) if not isinstance(v, (list, dict, tuple, Thing)) or v == () else 0
        mutable = isinstance(v, (numpy.ndarray, bytearray, set, collections.deque))
        if atom and not mutable:
            g.append(dict(t="atom", a=atom, k=[]))
            return len(g)
        if id(v) in seen:
            return seen[id(v)]
        keep.append(v)
        node = dict(t="unknown", a=0, k=[])
        g.append(node)
        n = seen[id(v)] = len(g)
        if atom:
            node["t"] = f"array{atom}"
        elif type(v) is list:
            node["t"], kids = "list", list(v)
            node["k"] = [visit(c) for c in kids]
        elif type(v) is tuple:
            node["t"] = "tuple"
            node["k"] = [visit(c) for c in v]
        elif type(v) in (dict, collections.OrderedDict):
            node["t"] = ("dict" if type(v) is dict else "ordered") if list(v) == [f"k{j}" for j in range(len(v))] else "keys"
            node["k"] = [visit(c) for c in v.values()]
        elif type(v) is Thing:
            node["t"] = "object" if list(vars(v)) == [f"k{j}" for j in range(len(vars(v)))] else "attributes"
            node["k"] = [visit(c) for c in vars(v).values()]
        else:
            node["t"] = "unknown " + type(v).__name__
        return n

    visit(x)
    return g


def trip(x, pool, rng):
    """Encodes and decodes a value; returns the event."""

    from diamondback import Serial

    compress = rng.random() < 0.5
    encoding = rng.choice(ENCODINGS) if rng.random() < 0.5 else None
    g = extract(x, pool)
    how = dict(compress=compress, encoding=encoding)
    args = {} if encoding is None else dict(encoding=encoding)
    e = dict(g=g, h=[dict(t="none", a=0, k=[])], again=g, second=g, text=True, wire=True, e="", how=repr(how))
    o = call(Serial.encode, x, compress, **args)
    if o.error:
        e["e"] = o.error
        return e
    text = o.value
    e["text"] = type(text) is str and set(text) <= ALPHABET
    e["wire"] = wire(text, compress)
    e["again"] = extract(x, pool)
    d = call(Serial.decode, text, **args)
    d2 = call(Serial.decode, text)
    if d.error or d2.error:
        e["e"] = d.error or d2.error
        return e
    e["h"], e["second"] = extract(d.value, pool), extract(d2.value, pool)
    return e


def wire(text, compress):
    """Whether a text holds a serialized value, compressed with gzip only where that was asked for."""

    try:
        data = base64.b85decode(text)
        if compress:
            data = gzip.decompress(data)
        pickle.loads(data)
        return True
    except Exception:
        return False


def foreign(x, pool, rng):
    """Decodes an encoding made by the documented format: Base-85 of an optionally compressed serialized value."""

    from diamondback import Serial

    g = extract(x, pool)
    data = pickle.dumps(x, rng.randint(2, pickle.HIGHEST_PROTOCOL))
    compress = rng.random() < 0.6
    if compress:
        data = gzip.compress(data, rng.randint(0, 9), mtime=rng.choice((0, 1, 2**31)))
    d = call(Serial.decode, base64.b85encode(data).decode())
    e = dict(g=g, h=g, again=g, second=g, text=True, wire=True, e=d.error or "", how="foreign")
    if not d.error:
        e["h"] = extract(d.value, pool)
    return e


def dress(g, pool, rng, index=None):
    """Chooses atoms, containers and arrays for a graph of the specification."""

    out = []
    for i, node in enumerate(g):
        n = dict(node)
        if n["a"]:
            if rng.random() < 0.25:
                n.update(t="array", a=0, value=copy_of(rng.choice(pool.arrays)))
            else:
                n["value"] = pool.atoms[index % len(pool.atoms)] if index is not None else rng.choice(pool.atoms)
        elif n["t"] == "dict":
            n["t"] = rng.choice(("dict", "dict", "object", "ordered"))
        out.append(n)
    return out


def copy_of(v):
    import copy

    return copy.copy(v)


def random_graph(rng, n):
    g = []
    for i in range(n):
        if i and rng.random() < 0.4:
            g.append(dict(t="atom", a=1, k=[]))
        else:
            g.append(dict(t=rng.choice(("list", "list", "tuple", "dict")), a=0, k=[]))
    for i, node in enumerate(g):
        if not node["a"]:
            node["k"] = [rng.randint(1, n) for _ in range(rng.choice((0, 1, 2, 3, 6)))]
    # A tuple refers to later nodes only, so that it can be built.
    for i, node in enumerate(g):
        if node["t"] == "tuple":
            node["k"] = [c for c in node["k"] if c - 1 > i]
    return g


def run(ctx):
    rng = ctx.rng
    rows = ctx.explore("GraphMC", dict(Nodes=str(3), Tags='{"list", "tuple", "dict"}', Width="2"), invariants=("RoundTrip", "Identity"), label="every graph of three nodes")
    if ctx.thorough:
        rows += ctx.explore("GraphMC", dict(Nodes="4", Tags='{"list", "tuple"}', Width="2"), invariants=("RoundTrip", "Identity"), label="every graph of four nodes")
    ctx.count("graphs of the specification", len(rows))
    limit = ctx.pick(3000, 30000)
    if len(rows) > limit:
        rows = rng.sample(rows, limit)
    pool = Pool(rng)
    events = []
    for i, row in enumerate(rows):
        x = build(dress(row["g"], pool, rng, i), pool, rng)
        events.append(trip(x, pool, rng))
    ctx.count("graphs replayed", len(events))
    for v in pool.atoms + pool.arrays:
        for _ in range(2):
            events.append(trip(v, pool, rng))
            events.append(foreign(v, pool, rng))
    for k in range(ctx.pick(600, 6000)):
        x = build(dress(random_graph(rng, rng.randint(1, 25)), pool, rng), pool, rng)
        if x is None:
            continue
        events.append(trip(x, pool, rng) if rng.random() < 0.7 else foreign(x, pool, rng))
    # Large values, alone and inside a container with a shared reference.
    for v in large(rng, ctx.thorough):
        pool.add(v)
        for x in (v, [v, (v, "k"), {"k0": v}]):
            events.append(trip(x, pool, rng))
            events.append(foreign(x, pool, rng))
    # Deep nesting, long text and large arrays.
    for width in (300, 3000):
        g = [dict(t="list", a=0, k=list(range(2, width + 2)))] + [dict(t="atom", a=1, k=[]) for _ in range(width)]
        events.append(trip(build(dress(g, pool, rng), pool, rng), pool, rng))
        g = [dict(t="dict", a=0, k=list(range(2, width + 2)))] + [dict(t=rng.choice(("list", "tuple")), a=0, k=[]) for _ in range(width)]
        events.append(trip(build(dress(g, pool, rng), pool, rng), pool, rng))
    for depth in (50, 90):
        g = [dict(t="list", a=0, k=[i + 2]) for i in range(depth)] + [dict(t="list", a=0, k=[1])]
        events.append(trip(build(g, pool, rng), pool, rng))
    ctx.count("round trips", len(events))
    ctx.sample(events[0])
    ctx.sample(events[-10])
    size = 40
    traces = [dict(cfg=0, ev=events[k:k + size]) for k in range(0, len(events), size)]
    ctx.judge("GraphTrace", traces, dict(InitOf="<- XInit", StepOf="<- XStep"))
    ctx.assumptions.append("text encodings are those that extend ASCII")
