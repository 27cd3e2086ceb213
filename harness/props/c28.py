"""C28 Serial codes are SHA3-256 of the encoded text, and malformed input is rejected."""

import base64
import gzip
import pickle
import subprocess
import sys

from common import *
from engine import REPO

CHILD = """
import sys, json
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
from diamondback.commons.serial import Serial
print("RESULT" + json.dumps([Serial.code(x, *a) for x, a in json.loads(sys.stdin.read())]))
"""

VALUES = [None, 0, [1, 2, 3], dict(a=1.5, b="text"), "x" * 500, list(range(200)), (1, (2, (3,))), b"\x00" * 99,
          bytes((k * k * 7919 + k * 31) % 251 for k in range(9000)), list(range(5000)), "y" * 70000]
TEXTS = ["a", "abc", "The quick brown fox", "0", " ", "\n", "A", "a" * 135, "a" * 136, "a" * 137, "é", "\U0001f600 text", "a\n", "a\r\n", "a ", " a", "\ta", "a\x00", "\ufeffa", "aé", "ae\u0301", "abc\n", "Abc", "ABC", "a" * 271, "a" * 272, "b" * 300]


SHORT, LONG = (1, 2, 5, 17, 67, 134, 135, 136, 137, 200, 272), (1000, 1023, 1024, 1025, 2000, 4095, 4096, 4097)


def text_of(rng, sizes=SHORT):
    return "".join(rng.choice("abcdefghijklmnopqrstuvwxyzABC 0123456789{}~\"\\éß€\U0001f600\x00") for _ in range(rng.choice(sizes)))


class Names:
    def __init__(self):
        self.table = {}

    def of(self, v):
        return self.table.setdefault(repr(v), len(self.table) + 1)


def argument(op, kind, rng):
    """Arguments of a class of the specification."""

    from diamondback import Serial

    if op == "encode":
        if kind == "foreign":
            return (rng.choice((lambda: 0, (i for i in ()), sys)), rng.random() < 0.5), {}
        v = rng.choice(VALUES)
        if kind == "value":
            return (v, rng.random() < 0.5), {}
        return (v, rng.random() < 0.5, "" if kind == "noname" else "no-such-encoding"), {}
    if op == "decode":
        v = rng.choice(VALUES)
        plain, packed = pickle.dumps(v), gzip.compress(pickle.dumps(v))
        if kind == "compressed":
            return (base64.b85encode(packed).decode(),), {}
        if kind == "plain":
            return (base64.b85encode(plain).decode(),), {}
        whole = base64.b85encode(rng.choice((plain, packed))).decode()
        if kind == "truncated":
            return (whole[:rng.randint(1, len(whole) - 1)],), {}
        if kind == "alphabet":
            k = rng.randint(0, len(whole))
            return (whole[:k] + rng.choice((" ", "\"", "'", ",", "é", "[", "\n")) + whole[k:],), {}
        if kind == "noise":
            data = rng.choice((b"\x00", b"\x01", b"\x7f", b"\xff")) + bytes(rng.randrange(256) for _ in range(rng.randint(0, 60)))
            return (base64.b85encode(rng.choice((data, gzip.compress(data), packed[:-9] + data))).decode(),), {}
        if kind == "empty":
            return ("",), {}
        return (whole, "" if kind == "noname" else "no-such-encoding"), {}
    x = rng.choice(TEXTS) if rng.random() < 0.5 else text_of(rng)
    if kind == "text":
        return (x,) if rng.random() < 0.6 else (x, rng.choice(("utf-8", "UTF8"))), {}
    if kind == "wide":
        return (x, rng.choice(("utf-16", "utf-32", "utf-16-le"))), {}
    if kind == "empty":
        return ("",), {}
    if kind == "unencodable":
        return ("é€" + x, "ascii"), {}
    return (x, "" if kind == "noname" else "no-such-encoding"), {}


def event(op, kind, args, kw, names):
    from diamondback import Serial

    o = call(getattr(Serial, op), *args, **kw)
    if op == "code":
        x = bytes(args[0], args[1] if len(args) > 1 and kind in ("text", "wide") else "utf-8") if kind in ("text", "wide") else b""
    else:
        x = args[0] if op == "decode" else ""
    return dict(op=op, **{"class": kind}, x=names.of(x), y=0 if o.error else names.of(o.value), e=o.error or "", about=repr(args)[:200]), o


def run(ctx):
    rng = ctx.rng
    rows = ctx.explore("CodecMC", dict(Depth=str(ctx.pick(2, 3)), Limit="400"), invariants=("Inverse85", "TruncationLosesTheEnd", "Total"), label="every history")
    ctx.count("histories of the specification", len(rows))
    limit = 2500
    traces = []
    for row in rows if len(rows) <= limit else rng.sample(rows, limit):
        names, ev, shared = Names(), [], {}
        for a in row["h"] * 2:
            # A class stands for the same arguments throughout a history.
            key = (a["op"], a["class"])
            if key not in shared:
                shared[key] = argument(a["op"], a["class"], rng)
            ev.append(event(a["op"], a["class"], *shared[key], names)[0])
        traces.append(dict(cfg=0, ev=ev))
    # Every truncation of encodings made by the code itself.
    from diamondback import Serial

    for v in VALUES + [numpy.arange(9.0), [numpy.ones(3), "text"]]:
        for compress in (True, False):
            o = call(Serial.encode, v, compress)
            names = Names()
            e = dict(op="encode", **{"class": "value"}, x=1, y=1, e=o.error or ("" if type(o.value) is str else "not text"), about=repr(v)[:100])
            ev = [e]
            if not e["e"]:
                cuts = range(1, len(o.value))
                if len(o.value) > 600:
                    cuts = sorted(set(rng.sample(range(1, len(o.value)), 500)) | set(range(len(o.value) - 30, len(o.value))))
                for cut in cuts:
                    ev.append(event("decode", "truncated", (o.value[:cut],), {}, names)[0])
                ctx.count("truncations", len(cuts))
            traces.append(dict(cfg=0, ev=ev))
    # The codes themselves, by the specification of SHA3-256.
    texts = [(x, ()) for x in TEXTS] + [(text_of(rng), ()) for _ in range(ctx.pick(40, 400))]
    texts += [(text_of(rng), (rng.choice(("utf-16", "utf-32-be", "utf-8", "utf-7")),)) for _ in range(ctx.pick(20, 100))]
    texts += [(text_of(rng, LONG), ()) for _ in range(ctx.pick(6, 40))] + [("z" * n, ()) for n in ctx.pick((8191,), (8191, 8192, 65535, 65536, 65537, 70001))]
    for compress in (True, False):
        for v in VALUES[:5]:
            o = call(Serial.encode, v, compress)
            if not o.error:
                texts.append((o.value, ()))
    sessions = [dict(cfg=0, ev=[dict(m=list(bytes(x, *(a or ("utf-8",)))))]) for x, a in texts]
    digests = [bytes(y[0]).hex() for y in ctx.oracle("Sha3Oracle", sessions, label="SHA3-256")]
    ctx.count("codes compared with the specification", len(texts))
    names, ev = Names(), []
    for (x, a), y in zip(texts, digests):
        o = call(Serial.code, x, *a)
        ctx.expect(not o.error and o.value == y, "the code is not the SHA3-256 digest of the text", lambda: dict(text=x[:200], encoding=a, observed=repr(o)[:200], expected=y))
        ev.append(dict(op="code", **{"class": "text"}, x=names.of(bytes(x, *(a or ("utf-8",)))), y=0 if o.error else names.of(o.value), e=o.error or "", about=x[:60]))
    traces.append(dict(cfg=0, ev=ev))
    # However long, a text has the code of its bytes: the same in every encoding that gives the same bytes.
    for _ in range(ctx.pick(12, 60)):
        size = rng.choice((5000, 20000, 33000, 65537, 70000, 140000, 300001))
        x, names, ev = "".join(rng.choice("abcXYZ 019é€\U0001f600") for _ in range(97)) * (size // 97 + 1), Names(), []
        for a in rng.sample(("utf-8", "utf-16", "utf-16-le", "utf-32", "utf-8-sig", "utf-7"), 3):
            m = bytes(x[:size], a)
            for t, b in ((x[:size], a), (str(m, "latin-1"), "latin-1"), (str(m[:-1], "latin-1"), "latin-1")):
                o = call(Serial.code, t, b)
                ev.append(dict(op="code", **{"class": "text"}, x=names.of(bytes(t, b)), y=0 if o.error else names.of(o.value), e=o.error or "", about=f"{size} {b} {t[:30]}"))
        traces.append(dict(cfg=0, ev=ev))
        ctx.count("codes of long texts", len(ev))
    # In another process, codes are the same.
    import json

    ascii_texts = [(x, list(a)) for x, a in texts if "\ud800" not in x]
    p = subprocess.run([sys.executable, "-c", CHILD, REPO], input=json.dumps(ascii_texts), text=True, capture_output=True, timeout=300,
                       env={**__import__("os").environ, "PYTHONHASHSEED": "7", "TZ": "Asia/Tokyo"})
    at = p.stdout.find("RESULT")
    there = json.loads(p.stdout[at + 6:]) if at >= 0 else None
    ctx.expect(there == digests, "codes differ in another process", lambda: dict(stderr=p.stderr[-300:]))
    ctx.sample(dict(text=texts[2][0], code=digests[2]))
    ctx.sample(traces[0])
    ctx.judge("CodecTrace", traces, dict(InitOf="<- XInit", StepOf="<- XStep"))
