"""C24 Log writes each entry that passes the level once, to the current stream only."""

import datetime
import io
import os
import re
import shutil
import sys
import tempfile

from common import *
from forks import forked

LINE = re.compile(r"(\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d\.\d\d[+-]\d\d:?\d\d) (\S+) ")
LEVELS = dict(TRACE=5, DEBUG=10, INFO=20, SUCCESS=25, WARNING=30, ERROR=40, CRITICAL=50, NOTICE=22, ZERO=0, PANIC=99)
EXTRA = ("NOTICE", "ZERO", "PANIC")
DEFAULT, STDOUT, STDERR = 0, 1, 2
TEXTS = ("plain", "two words", "x{a}", "{}", "{0} {1!r}", "{{double}}", "<red>tag</red>", "</level>", "%s %d", "back\\slash", "tab\there",
         "two\nlines", "unicode é ß €", "\U0001f600", "'quoted' \"twice\"", "ends with space ", " leads with space", "{time} {level} {message}",
         "\\<red>", "x" * 3000, "{exception}", "{extra[x]}", "a=b;c", "\x1b[31mescape\x1b[0m", "Exception = x", "INFO INFO", "")


# Long entries.
LONG = ["x" * n for n in (255, 256, 1023, 1024, 4095, 4096, 8192, 16384, 65535, 65537, 200000)] + ["line {n}\n" * 500, "<b>" * 400, "é€" * 9000, "word " * 5000, "{" * 5000, " " * 2000]


class OnlyWrite:
    """A stream with nothing but a write method."""

    def __init__(self):
        self.parts = []

    def write(self, text):
        self.parts.append(text)

    def getvalue(self):
        return "".join(self.parts)


class Flushed(OnlyWrite):
    """A buffered stream: text that was not flushed is not there."""

    def __init__(self):
        super().__init__()
        self.kept = ""

    def write(self, text):
        self.kept += text

    def flush(self):
        self.parts.append(self.kept)
        self.kept = ""


class FileStream:
    def __init__(self, path, mode):
        self.path, self.stream = path, open(path, mode, encoding="utf-8", newline="")

    def getvalue(self):
        with open(self.path, encoding="utf-8", newline="") as fin:
            return fin.read()


class Wrapped:
    def __init__(self):
        self.raw = io.BytesIO()
        self.stream = io.TextIOWrapper(self.raw, encoding="utf-8", newline="")

    def getvalue(self):
        return self.raw.getvalue().decode("utf-8")


LONG_SESSION = 61  # a session of this length has long entries


class Numbers:
    """Neither None nor text, yet not writable."""

    write = 5


class Deep(Exception):
    pass


def raised(depth, kind, text):
    """An exception with a traceback of some depth, as an application would store it, and its expected parts."""

    def go(k):
        if k:
            go(k - 1)
        else:
            raise kind(text)

    try:
        go(depth)
    except Exception as ex:
        kept = ex
    return kept


def foreign(text):
    """An exception whose traceback passes through another file."""

    try:
        re.compile("(")
    except Exception as ex:
        return ex


def parts_of(ex):
    locations, info = [], ex.__traceback__
    while info:
        locations.append((os.path.basename(info.tb_frame.f_code.co_filename), info.tb_lineno))
        info = info.tb_next
    return type(ex).__name__, str(ex), locations


def tells(text, ex):
    """Whether a text tells the type, the message and every traceback location of an exception, in order, on one line."""

    name, message, locations = parts_of(ex)
    if "\n" in text and "\n" not in message:
        return False
    at = text.find(name)
    if at < 0:
        return False
    at += len(name)
    k = text.find(message, at)
    if k < 0:
        return False
    at = k + len(message)
    rest = text[at:]
    seen = [(f, int(n)) for f, n in re.findall(r"([^\s/\\=]+\.py|<[^>]+>)\D{0,24}?(\d+)", rest)]
    return seen == locations


class World:
    """One history of calls against a fresh Log, in a process of its own."""

    def __init__(self, home, rng):
        from loguru import logger

        from diamondback import Log

        self.Log, self.logger, self.rng = Log, logger, rng
        self.home = home
        self.out, self.err = io.StringIO(), io.StringIO()
        sys.stdout, sys.stderr = self.out, self.err
        # The handler loguru adds on import is bound to the standard error of that time: what it receives is seen in a file.
        self.default = os.path.join(home, f"{os.getpid()}-default.txt")
        fd = os.open(self.default, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        os.dup2(fd, 2)
        self.sinks = {STDOUT: (self.out, self.out), STDERR: (self.err, self.err)}
        self.seen = {DEFAULT: 0, STDOUT: 0, STDERR: 0}
        self.handlers = {}
        self.entries = {}
        self.ev = []
        self.last = None

    def sink(self, k):
        if k not in self.sinks:
            form = self.rng.choice(("memory", "memory", "only", "flushed", "file", "append", "wrapped"))
            if form in ("file", "append"):
                f = FileStream(os.path.join(self.home, f"{os.getpid()}-{k}.txt"), "w" if form == "file" else "a")
                self.sinks[k] = (f.stream, f)
            elif form == "wrapped":
                f = Wrapped()
                self.sinks[k] = (f.stream, f)
            else:
                f = dict(memory=io.StringIO, only=OnlyWrite, flushed=Flushed)[form]()
                self.sinks[k] = (f, f)
            self.seen[k] = 0
        return self.sinks[k][0]

    def spelled(self, name):
        return self.rng.choice((str.upper, str.lower, str.title, str.swapcase, lambda x: "".join(c.upper() if i % 2 else c.lower() for i, c in enumerate(x))))(name)

    def bad_level(self):
        return self.rng.choice(("BOGUS", "", "INF", "INFO ", "Notic", None, 20, b"INFO", ["INFO"], "WARN"))

    def bad_stream(self):
        return self.rng.choice((None, 0, "", "path.txt", os.path.join(self.home, "never.txt"), object(), Numbers(), 5, False, lambda m: None, b"bytes", []))

    def entry(self, k):
        if self.rng.random() < 0.25:
            kind = self.rng.choice((ValueError, KeyError, RuntimeError, Deep, OSError, ZeroDivisionError))
            text = self.rng.choice(("broken", "x{a} <red>", "two words", "é {}", ""))
            form = self.rng.random()
            if self.long:
                return raised(self.rng.choice((30, 99, 100, 101, 250, 600)), kind, self.rng.choice(LONG[:6]))
            if form < 0.15:
                return kind(text)
            return foreign(text) if form < 0.3 else raised(self.rng.randint(0, 5), kind, text)
        if self.long:
            return f"{self.rng.choice(LONG)}#{k}" if self.rng.random() < 0.5 else f"#{k}{self.rng.choice(LONG)}"
        if self.rng.random() < 0.04:
            return ""
        return f"{self.rng.choice(TEXTS)}#{k}" if self.rng.random() < 0.8 else f"#{k} {self.rng.choice(TEXTS)}"

    def observe(self, t0):
        out = []
        size = os.stat(self.default).st_size
        if size != self.seen[DEFAULT]:
            self.seen[DEFAULT] = size
            out.append([DEFAULT, 0, 0])
        for k, (_, reader) in sorted(self.sinks.items()):
            text = reader.getvalue()
            fresh, self.seen[k] = text[self.seen[k]:], len(text)
            while fresh:
                m = LINE.match(fresh)
                hit = None
                if m:
                    rest = fresh[m.end():]
                    try:
                        when = datetime.datetime.fromisoformat(m.group(1)).timestamp()
                    except ValueError:
                        when = 0.0
                    if t0 - 0.05 <= when <= datetime.datetime.now().timestamp() + 0.05:
                        for i in sorted(self.entries, reverse=True):
                            x = self.entries[i]
                            if isinstance(x, Exception):
                                end = rest.find("\n", rest.find(str(x)) + len(str(x))) if str(x) in rest else -1
                                if end >= 0 and tells(rest[:end], x):
                                    hit = (i, end + 1)
                                    break
                            elif rest.startswith(f"{x}\n"):
                                hit = (i, len(str(x)) + 1)
                                break
                if not hit:
                    out.append([k, 0, 0])
                    break
                out.append([k, LEVELS.get(m.group(2), -1), hit[0]])
                fresh = rest[hit[1]:]
        return out

    def act(self, a):
        rng, Log, logger = self.rng, self.Log, self.logger
        op, k = a["op"], len(self.ev) + 1
        if op in ("write", "native"):
            x = self.entry(k) if op == "write" else f"native#{k}"
            if op == "write" and self.last is not None and rng.random() < 0.15:
                x = self.last
            self.last = x
            # An identity denotes a text: equal texts are one entry.
            k = next((i for i, u in self.entries.items() if u == x), k)
            self.entries[k] = x
        t0 = datetime.datetime.now().timestamp()
        target = Log if rng.random() < 0.8 else rng.choice((Log(), type("Sub", (Log,), {})))
        if op == "level":
            o = call(target.level, self.spelled(a["name"]) if a["name"] != "BOGUS" else self.bad_level())
        elif op == "stream":
            o = call(target.stream, self.sink(a["k"]) if a["k"] else self.bad_stream())
        elif op == "write":
            name = self.spelled(a["name"]) if a["name"] != "BOGUS" else self.bad_level()
            if isinstance(x, Exception) and rng.random() < 0.3:
                # While another exception is being handled.
                try:
                    raise LookupError("another")
                except LookupError:
                    o = call(target.write, name, x)
            else:
                o = call(target.write, name, x) if rng.random() < 0.8 else call(target.write, level=name, entry=x)
        elif op == "define":
            o = call(logger.level, a["name"], no=LEVELS[a["name"]])
        elif op == "add":
            s = self.sink(a["k"])
            o = call(logger.add, s, level=a["no"], format="{time:YYYY-MM-DDTHH:mm:ss.SSZ} {level} {message}")
            self.handlers[a["k"]] = o.value
        elif op == "remove":
            o = call(logger.remove, self.handlers.pop(a["k"]))
        elif op == "native":
            o = call(logger.log, a["name"], x.replace("{", "(").replace("}", ")"))
        d = self.observe(t0)
        self.ev.append(dict(op=op, name=a.get("name", ""), k=a.get("k", 0), no=a.get("no", 0), id=k, d=d, e=o.error or "", about=o.message or ""))


def history(job):
    import random

    home, seed, actions = job
    w = World(home, random.Random(seed))
    w.long = len(actions) == LONG_SESSION
    for a in actions:
        w.act(a)
    return w.ev


def session(rng, n):
    """A random history of many calls."""

    defined, handlers, out = set(), set(), []
    while len(out) < n:
        op = rng.choice(("level", "stream", "write", "write", "write", "write", "define", "add", "remove", "native"))
        names = list(set(LEVELS) - set(EXTRA)) + ["BOGUS"] * 2 + sorted(defined) * 2
        name = rng.choice(sorted(names))
        if op == "level" or op == "write":
            if rng.random() < 0.05:
                name = rng.choice(EXTRA)
            out.append(dict(op=op, name=name))
        elif op == "stream":
            out.append(dict(op=op, k=rng.choice((0, 1, 2, 3, 4, 5, 3, 4))))
        elif op == "define":
            left = set(EXTRA) - defined
            if left:
                x = rng.choice(sorted(left))
                defined.add(x)
                out.append(dict(op=op, name=x))
        elif op == "add":
            k = rng.choice((11, 12, 13))
            if k not in handlers:
                handlers.add(k)
                out.append(dict(op=op, k=k, no=rng.choice((0, 10, 25, 40))))
        elif op == "remove" and handlers:
            k = rng.choice(sorted(handlers))
            handlers.discard(k)
            out.append(dict(op=op, k=k))
        elif op == "native" and name != "BOGUS":
            out.append(dict(op=op, name=name))
    return out


def run(ctx):
    rng = ctx.rng
    import diamondback  # noqa: F401

    inv = ("OnceToTheCurrentStream", "InOrder", "HandlersUndisturbed")
    names = '{"INFO", "DEBUG", "ERROR", "NOTICE", "BOGUS"}'
    rows = ctx.explore("LogMC", dict(Depth=str(ctx.pick(3, 4)), Names=names if not ctx.thorough else '{"INFO", "ERROR", "NOTICE", "BOGUS"}', Sinks="{3, 4}", Handlers="{11}"), invariants=inv,
                       properties=("RejectedChangesNothing",), label="every history")
    jobs = [r["h"] for r in rows]
    ctx.count("histories of the specification", len(jobs))
    limit = ctx.pick(2000, 15000)
    if len(jobs) > limit:
        jobs = rng.sample(jobs, limit)
    rows = ctx.explore("LogMC", dict(Depth="99", Names='{"INFO", "DEBUG", "ERROR", "WARNING", "NOTICE", "ZERO", "BOGUS"}', Sinks="{1, 2, 3, 4}", Handlers="{11, 12}"),
                       emit=("EmitInit",), emit_actions=("EmitStep",), view="View", workers=1, label="every transition")
    out, n = walks(rows, rng, length=60)
    ctx.count("transitions of the specification", n)
    jobs += [path for _, _, path in out]
    jobs += [session(rng, LONG_SESSION) for _ in range(ctx.pick(6, 40))] + [session(rng, rng.choice((700, 1500))) for _ in range(ctx.pick(3, 20))]
    jobs += [session(rng, rng.choice((20, 60, 150))) for _ in range(ctx.pick(150, 1500))]
    home = tempfile.mkdtemp(prefix="verif-log-")
    try:
        results = forked([(home, rng.random(), job) for job in jobs], history)
    finally:
        shutil.rmtree(home, True)
    traces = []
    for job, ev in zip(jobs, results):
        if ev is None:
            ctx.violate("a history of calls did not finish", dict(history=job[:50]))
        else:
            traces.append(dict(cfg=0, ev=ev))
    ctx.count("calls", sum(len(x["ev"]) for x in traces))
    ctx.sample(traces[len(traces) // 2])
    ctx.assumptions.append("text an application writes to the stream itself, and removal of the handler of Log by the application, are not covered")
    ctx.judge("LogTrace", traces, dict(InitOf="<- XInit", StepOf="<- XStep"))
