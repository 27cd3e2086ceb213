"""C29 REST requests carry exactly the composed URL, method, parameters and body."""

import base64
import copy
import io
import json
import os
import tempfile
import urllib.parse

from common import *
from forks import forked
from net import Server, drop_request

USUAL = {"host", "user-agent", "accept", "accept-encoding", "connection", "content-length", "content-type", "transfer-encoding", "proxy-connection"}
SEGMENTS = ("x", "api", "v1", "some-name_1.0~", "two words", "é", "日本", "A", "100", "a=b", "a&b", "a+b", "a@b", "a,b;c", "(x)", "x!'*$", "long" * 100, "é" * 90)
METHODS = ("DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT")
BAD_METHODS = ("", "FETCH", "GETS", " GET", "GET ", "TRACE", "CONNECT", "POST PUT", "G", "ge t", None, 5, b"GET", ["get"])


def clean_env():
    for name in list(os.environ):
        if name.lower() in ("http_proxy", "https_proxy", "all_proxy", "no_proxy", "requests_ca_bundle", "curl_ca_bundle", "netrc"):
            del os.environ[name]


def items_of(rng):
    pool = [("q", "1"), ("q", "two words"), ("name", "é日本"), ("a&b", "c=d"), ("x", "a+b/c?d#e"), ("empty", ""), ("n", "5"), ("list", ["1", "2", "3"]), ("Case", "MiXed"), ("percent", "100%"), ("k", 7)]
    if rng.random() < 0.1:
        pool += [("p%d" % k, str(k * k)) for k in range(70)] + [("long", "v" * 3000), ("list of many", [str(k) for k in range(120)])]
        return dict(rng.sample(pool, rng.randint(20, len(pool))))
    return dict(rng.sample(pool, rng.randint(1, 4)))


def flat(item):
    out = []
    for k, v in item.items():
        out += [(k, str(x)) for x in v] if isinstance(v, list) else [(k, str(v))]
    return out


def headers_of(rng):
    pool = [("X-One", "1"), ("X-Two", "two words"), ("X-Empty", ""), ("x-lower", "a;b=c"), ("X-Long", "v" * 500), ("Accept", "application/x-own"), ("User-Agent", "own/1.0"), ("X-Quote", '"q"'), ("Content-Type", "application/x-own")]
    if rng.random() < 0.1:
        pool += [("X-%d" % k, "value %d" % k) for k in range(60)] + [("X-Longer", "w" * 6000)]
        return dict(rng.sample(pool, rng.randint(20, len(pool))))
    return dict(rng.sample(pool, rng.randint(1, 4)))


def auth_of(rng):
    return rng.choice((("user", "secret"), ("u", "p:with:colons"), ("name", ""), ("a" * 40, "b" * 40)))


def data_of(rng):
    n = rng.choice((1, 2, 10, 255, 256, 1000, 4096, 8192, 65536, 70000))
    if rng.random() < 0.03:
        return rng.choice((b"0123456789abcdef" * 65536, "t" * 300000, "é€" * 50000, io.BytesIO(bytes(range(256)) * 1000)))
    return rng.choice((bytes(range(256)), b"\x00", b"plain", bytes(rng.randrange(256) for _ in range(n)), "text é 日本", "{\"looks\": \"like json\"}", b"a=b&c=d", b"0", b"\r\n\r\n", io.BytesIO(b"file content " * 50)))


def json_of(rng, weak=False):
    if weak and rng.random() < 0.4:
        return rng.choice(({}, [], 0, "", False, 0.0))

    if rng.random() < 0.04:
        return rng.choice((list(range(20000)), {"k%d" % k: [k, str(k)] for k in range(3000)}, "long é " * 20000))

    def deep(k):
        if k == 0:
            return rng.choice((1, -2.5, "text", "é日本\"\\\n", True, None, 0, "", 1e300, 12345678901234567890))
        return rng.choice(([deep(k - 1) for _ in range(rng.randint(0, 3))], {str(i): deep(k - 1) for i in range(rng.randint(0, 3))}))

    return rng.choice((dict(x=1), [1, 2, 3], dict(a=dict(b=[1, dict(c=None)])), "text", 5, 1.5, True, dict(deep=deep(3)), [deep(2), 1]))


class Values:
    """Identities of values: 1 and above for those of the session, -1 for any other."""

    def __init__(self):
        self.known = []

    def add(self, v):
        key = self.key(v)
        for i, k in enumerate(self.known):
            if k == key:
                return i + 1
        self.known.append(key)
        return len(self.known)

    def of(self, v):
        key = self.key(v)
        return self.known.index(key) + 1 if key in self.known else -1

    @staticmethod
    def key(v):
        return json.dumps(v, sort_keys=True) if not isinstance(v, bytes) else v


class Rig:
    """Clients and servers of one session, in a process of its own."""

    def __init__(self, rng, clients):
        clean_env()
        from diamondback import RestClient

        self.rng = rng
        if rng.random() < 0.3:
            self.kind = type("Derived", (RestClient,), {})
        else:
            self.kind = RestClient
        self.servers = [None, Server(1), Server(2), Server(3), Server(4)]
        self.clients = [None] + [self.kind() for _ in range(clients)]
        if rng.random() < 0.2:
            # A proxy of the environment, which the proxy of a client replaces.
            os.environ["http_proxy"] = f"http://{self.servers[4].place}"
            for x in self.clients[1:]:
                x.proxy = dict(http="", https="")
            self.direct = dict(http="", https="")
        else:
            self.direct = rng.choice((dict(), dict(http="", https=""), None))
        self.items, self.headers, self.auths, self.bodies, self.jsons = Values(), Values(), Values(), Values(), Values()
        self.textual = set()  # identities of text bodies
        self.names = {}
        self.base = [[]] * (clients + 1)
        self.ev = []
        self.present = {}  # the request of the present call

    # -- rendering ------------------------------------------------------------------------------------------------
    def name(self, token):
        if token not in self.names:
            self.names[token] = self.rng.choice([x for x in SEGMENTS if x not in self.names.values()])
        return self.names[token]

    def text(self, path):
        return "".join("/" if x == "/" else self.name(x) for x in path)

    def tokens(self, path):
        back = {v: k for k, v in self.names.items()}
        out = []
        for i, x in enumerate(urllib.parse.unquote(path).split("/")):
            if i:
                out.append("/")
            if x:
                out.append(back.get(x, "?" + x))
        return out

    def spelled(self, method):
        return self.rng.choice((str.upper, str.lower, str.title, str.swapcase, lambda x: "".join(c.upper() if i % 2 else c.lower() for i, c in enumerate(x))))(method)

    # -- observation ----------------------------------------------------------------------------------------------
    def arrivals(self):
        out = []
        for server in self.servers[1:]:
            received, accepted = server.take()
            for r in received:
                out.append(self.decode(server, r))
            # A connection without a request is traffic too.
            if accepted and not received:
                out.append(dict(at=server.number, server=0, method="", path=[], item=-1, header=-1, auth=-1, data=-1, json=-1, rest=1))
        return out

    def decode(self, server, r):
        target, at, rest = r.target, server.number, 0
        host = dict((k.lower(), v) for k, v in r.headers).get("host", "")
        to = next((s.number for s in self.servers[1:] if host == f"{s.place}"), 0)
        if target.startswith("http://"):
            parts = urllib.parse.urlsplit(target)
            if parts.netloc != host:
                to = 0
            target = parts.path + ("?" + parts.query if parts.query else "")
        elif to != at:
            to = 0
        path, _, query = target.partition("?")
        pairs = urllib.parse.parse_qsl(query, keep_blank_values=True, strict_parsing=False)
        item = self.items.of([list(x) for x in pairs]) if query else 0
        own, auth, ctype = [], 0, ""
        for k, v in r.headers:
            low = k.lower()
            if low == "authorization":
                try:
                    auth = self.auths.of(base64.b64decode(v.split(" ", 1)[1]).decode("latin-1"))
                except Exception:
                    auth = -1
            elif low == "content-type":
                ctype = v
                if v == "application/x-own":
                    own.append([low, v])
            elif low in ("accept", "user-agent"):
                if v.startswith("own/") or v == "application/x-own":
                    own.append([low, v])
            elif low not in USUAL:
                if low.startswith("x-"):
                    own.append([low, v])
                else:
                    rest = 1
        header = self.headers.of(sorted(own)) if own else 0
        data = jsn = 0
        if r.body:
            # A body that could be either one is what the present call gave.
            data = self.bodies.of(r.body)
            if data < 0 or (self.present.get("json") and not self.present.get("data")):
                data = 0
                try:
                    jsn = self.jsons.of(json.loads(r.body.decode("utf-8"))) if ctype in ("application/json", "application/x-own") else -1
                except ValueError:
                    jsn = -1
        if ctype not in ("", "application/x-own") and not (ctype == "application/json" and jsn > 0) and not (ctype.startswith("application/x-www-form-urlencoded") and data in self.textual):
            rest = 1
        return dict(at=at, server=to, method=r.method, path=self.tokens(path), item=item, header=header, auth=auth, data=data, json=jsn, rest=rest, number=r.number)

    # -- actions --------------------------------------------------------------------------------------------------
    def url(self, c, server, base):
        target = self.clients[c]
        if server == 0:
            value = self.rng.choice((None, ""))
        else:
            value = f"http://{self.servers[server].place}" + urllib.parse.quote(self.text(base), safe="/!'()*$&+,;=@") if self.rng.random() < 0.5 else f"http://{self.servers[server].place}" + self.text(base)
        o = call(setattr, target, "url", value)
        self.ev.append(dict(op="url", c=c, server=server, base=base if server else [], e=o.error or "", about=str(value), mid=0))

    def proxy(self, c, proxy):
        value = {"http": f"http://{self.servers[proxy].place}"} if proxy else self.direct
        o = call(setattr, self.clients[c], "proxy", value)
        self.ev.append(dict(op="proxy", c=c, proxy=proxy, e=o.error or "", about=repr(value), mid=0))

    def live(self, c):
        o = call(lambda: self.clients[c].live)
        self.ev.append(dict(op="live", c=c, e=o.error or "", y=1 if o.value is True else 0 if o.value is False else -1, got=self.arrivals(), mid=0))

    def request(self, c, r, mid=0, drop=0):
        rng = self.rng
        kw, rec = {}, dict(r)
        method = self.spelled(r["method"]) if r["method"] != "BAD" else rng.choice(BAD_METHODS)
        api = self.text(r["api"])
        if r["item"]:
            kw["item"] = items_of(rng)
            rec["item"] = self.items.add([list(x) for x in flat(kw["item"])])
        elif rng.random() < 0.2:
            kw["item"] = rng.choice((None, {}))
        if r["header"]:
            kw["header"] = headers_of(rng)
            rec["header"] = self.headers.add(sorted([k.lower(), v] for k, v in kw["header"].items()))
        elif rng.random() < 0.2:
            kw["header"] = rng.choice((None, {}))
        if r["auth"]:
            kw["auth"] = auth_of(rng)
            rec["auth"] = self.auths.add(":".join(kw["auth"]))
        if r["data"]:
            v = data_of(rng)
            raw = v.getvalue() if isinstance(v, io.BytesIO) else v.encode() if isinstance(v, str) else v
            kw["data"], rec["data"] = v, self.bodies.add(raw)
            if isinstance(v, str):
                self.textual.add(rec["data"])
        elif rng.random() < 0.2:
            kw["data"] = rng.choice((None, b"", ""))
        if r["json"]:
            v = json_of(rng, not r["data"])
            kw["json"], rec["json"] = v, self.jsons.add(v)
        before = copy.deepcopy({k: v for k, v in kw.items() if not isinstance(v, io.BytesIO)})
        if mid:
            def hook():
                self.clients[c].url = f"http://{self.servers[mid].place}"

            for s in self.servers[1:]:
                s.hook = hook
        for s in self.servers[1:]:
            s.mode = drop_request if drop else None
        args = (method, api) if rng.random() < 0.5 else ()
        if not args:
            kw.update(method=method, api=api)
        self.present = rec
        o = call(self.clients[c].request, *args, **kw)
        for s in self.servers[1:]:
            s.hook = s.mode = None
        got = self.arrivals()
        y = 0
        if not o.error:
            try:
                number = got[0]["number"]
                y = int(o.value.status_code == 200 and o.value.headers["X-Number"] == str(number)
                        and o.value.content == (b"" if got[0]["method"] == "HEAD" else b"answer %d" % number))
            except Exception:
                y = 0
        changed = int(any(before[k] != kw[k] for k in before))
        self.ev.append(dict(op="request", c=c, r=rec, e=o.error or "", y=y, got=got, changed=changed, mid=mid, drop=drop,
                            about=f"{method!r} {api!r} {({k: v for k, v in kw.items() if k not in ('method', 'api')})!r}"[:300] + (o.message or "")))

    def close(self):
        for s in self.servers[1:]:
            s.stop()


def default(api=("x",), **kw):
    return {**dict(method="GET", api=list(api), item=0, header=0, auth=0, data=0, json=0), **kw}


def session(job):
    import random

    kind, content, seed = job
    rng = random.Random(seed)
    rig = Rig(rng, 2)
    for c in (1, 2):
        rig.proxy(c, 0)
    if kind == "join":
        for row in content:
            rig.url(1, rng.choice((1, 2)), row["b"])
            rig.request(1, default(row["a"]))
    elif kind == "requests":
        rig.url(1, 1, rng.choice(([], ["/", "y"])))
        for r in content:
            rig.request(1, r)
    elif kind == "history":
        for c in (1, 2):
            rig.url(c, 1, [])
        for a in content:
            if a["op"] == "url":
                rig.url(a["c"], a["server"], a["base"])
            elif a["op"] == "proxy":
                rig.proxy(a["c"], a["proxy"])
            elif a["op"] == "live":
                rig.live(a["c"])
            else:
                rig.request(a["c"], a["r"], rng.choice((0, 0, 0, 1, 2)), int(rng.random() < 0.15))
    else:
        for c in (1, 2):
            rig.url(c, rng.choice((1, 2)), [])
        for _ in range(content):
            c, op = rng.choice((1, 2)), rng.choice(("request",) * 7 + ("url", "url", "proxy", "live"))
            if op == "url":
                rig.url(c, rng.choice((0, 1, 1, 1, 2, 2, 2)), tidy(rng, ["/"]) if rng.random() < 0.7 else [])
            elif op == "proxy":
                rig.proxy(c, rng.choice((0, 0, 3)))
            elif op == "live":
                rig.live(c)
            else:
                rig.request(c, dict(method=rng.choice(METHODS + ("BAD",)), api=tidy(rng, []), item=rng.randint(0, 1), header=rng.randint(0, 1), auth=rng.randint(0, 1),
                                    data=int(rng.random() < 0.4), json=int(rng.random() < 0.4)), rng.choice((0,) * 9 + (1, 2)), int(rng.random() < 0.15))
    rig.close()
    return rig.ev


def tidy(rng, out):
    out = list(out)
    for _ in range(rng.randint(0, 6)):
        x = rng.choice(("/", "x", "y", "z"))
        if x == "/" or not out or out[-1] == "/":
            out.append(x)
    # A path that begins with two slashes would be a host.
    while len(out) > 1 and out[:2] == ["/", "/"]:
        del out[0]
    return out


def run(ctx):
    rng = ctx.rng
    inv = ("JoinKeepsBoth", "SlashesAtEndsAreIrrelevant")
    prop = ("RequestsLeaveNothing", "OthersUntouched")
    joins = ctx.explore("RestMC", dict(Mode='"join"', Depth="0", MaxBase="4", MaxApi=str(ctx.pick(4, 5))), invariants=inv, properties=prop, label="every pair of paths")
    combos = ctx.explore("RestMC", dict(Mode='"requests"', Depth="0", MaxBase="0", MaxApi="0"), workers=1, label="every combination of parts")
    rows = ctx.explore("RestMC", dict(Mode='"history"', Depth=str(ctx.pick(3, 4)), MaxBase="0", MaxApi="0"), invariants=inv, properties=prop, label="every history")
    ctx.count("pairs of paths", len(joins))
    ctx.count("combinations of parts", len(combos))
    ctx.count("histories of the specification", len(rows))
    # Doubled slashes inside a path are kept; the service sees them as they are.
    joins = rng.sample(joins, min(len(joins), ctx.pick(2000, 10000)))
    combos = combos if ctx.thorough else rng.sample(combos, 1000)
    rows = rng.sample(rows, min(len(rows), ctx.pick(900, 6000)))
    jobs = []

    def chunks(kind, content, n):
        for i in range(0, len(content), n):
            jobs.append((kind, content[i:i + n], rng.random()))

    chunks("join", joins, 50)
    chunks("requests", [x["r"] for x in combos], 25)
    jobs += [("history", x["h"], rng.random()) for x in rows]
    jobs += [("random", rng.choice((10, 30)), rng.random()) for _ in range(ctx.pick(100, 1000))]
    home = tempfile.mkdtemp(prefix="verif-rest-")
    os.environ["HOME"] = home
    results = forked(jobs, session, width=12, seconds=120.0)
    os.rmdir(home)
    traces = []
    for job, ev in zip(jobs, results):
        if ev is None:
            ctx.violate("a session of requests did not finish", dict(kind=job[0], content=job[1] if job[0] == "history" else None))
        else:
            traces.append(dict(cfg=dict(clients=2), ev=ev))
    ctx.count("requests", sum(e["op"] == "request" for x in traces for e in x["ev"]))
    ctx.sample(traces[-1]["ev"][:6])
    ctx.assumptions.append("service and client share a host, without TLS; names of path segments without a dot segment, percent, question or number sign")
    ctx.judge("RestTrace", traces, dict(InitOf="<- XInit", StepOf="<- XStep"))
