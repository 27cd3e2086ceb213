"""C30 REST faults surface as errors, and liveness reflects reachability only."""

import os
import tempfile
import time

import net
from common import *
from forks import forked
from props.c29 import clean_env

FAULTS = dict(drop_early=net.drop_early, drop_request=net.drop_request, drop_status=net.drop_status, garbage=net.garbage, stall=net.stall,
              stall_early=net.stall_early, stall_status=net.stall_status, drop_body=net.drop_body, drop_chunk=net.drop_chunk, stall_body=net.stall_body)
KINDS = '{"redirect", "redirect_dead", "redirect_loop", "length", "chunked", "close", "gzip", "empty", "refused", "full", "drop_early", "drop_request", "drop_status", "garbage", "stall", "stall_early", "stall_status", "slow", "late", "drop_body", "drop_chunk", "stall_body"}'
SHORT, LONG, LIMIT = 0.25, 30.0, 8.0
STATUSES = (200, 201, 202, 203, 204, 206, 226, 300, 304, 399, 400, 401, 402, 403, 404, 405, 409, 410, 418, 429, 451, 499, 500, 501, 502, 503, 504, 511, 599)


class Rig:
    def __init__(self, rng):
        clean_env()
        from diamondback import RestClient

        self.rng = rng
        self.server = net.Server(1)
        self.full = None
        self.other = net.Server(2)
        self.nobody = net.Server(3)
        self.nobody.stop()
        self.up, self.place = True, None
        self.client = RestClient()
        self.client.proxy = rng.choice((dict(), dict(http="", https="")))
        self.base = rng.choice(("", "/", "/api", "/api/v1/"))
        self.ev = []

    def url(self, place):
        if place == self.place:
            return
        self.place = place
        self.client.url = f"http://{place}{self.base}"

    def act(self, a):
        rng, kind, status = self.rng, a["kind"], a["status"]
        body = b"" if kind == "empty" else bytes(rng.randrange(256) for _ in range(50)) * (rng.choice((1, 3, 60)) if kind != "large" else 40000)
        headers = [(f"X-Own-{i}", f"value {rng.random()}") for i in range(rng.randint(0, 3))]
        if kind == "refused":
            if self.up:
                self.server.stop()
                self.up = False
        elif not self.up:
            self.server.start()
            self.up = True
        if kind == "full":
            if not self.full:
                self.full = net.Full()
            self.url(self.full.place)
        else:
            self.url(self.server.place)
        if kind in FAULTS:
            self.server.mode = FAULTS[kind]
        elif kind.startswith("redirect"):
            final = net.reply(status, body, rng.choice(("length", "chunked", "close")), headers)
            there = f"http://{self.nobody.place}/end" if kind == "redirect_dead" else ""
            self.server.mode = net.redirect(rng.choice((301, 302, 303, 307, 308)), there or (f"http://{self.other.place}/{rng.choice((0, 0, 1, 3))}" if kind == "redirect" else rng.choice(("/again", f"http://{self.server.place}/again"))))

            def hop(server, c, r):
                k = int(r.target[1:].partition("?")[0])
                (net.redirect(rng.choice((302, 307)), f"/{k - 1}") if k else final)(server, c, r)

            self.other.mode = hop
        elif kind not in ("refused", "full"):
            self.server.mode = net.reply(status, body, {"empty": "length", "large": "length"}.get(kind, kind), headers)
        # A timeout as short as the fault needs; longer parts of it must not matter.
        if kind == "full":
            self.client.timeout = rng.choice(((SHORT, LONG), SHORT, (SHORT, SHORT)))
        elif kind.startswith("stall"):
            self.client.timeout = rng.choice(((LONG, SHORT), SHORT, (SHORT + 2.0, SHORT)))
        else:
            self.client.timeout = rng.choice((LONG, (LONG, LONG), (10.0, 60.0), None, (None, LONG)))
        method = "HEAD" if a["op"] == "live" else rng.choice(("GET", "GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "HEAD"))
        self.server.take()
        t0 = time.time()
        if a["op"] == "live":
            o = call(lambda: self.client.live, seconds=40.0)
            y = 1 if o.value is True else 0 if o.value is False else -1
        else:
            kw = dict(item=dict(a="1")) if rng.random() < 0.2 else dict(json=dict(x=1)) if rng.random() < 0.2 else {}
            o = call(self.client.request, method.lower(), rng.choice(("", "x", "x/y")), seconds=40.0, **kw)
            y = 0
            if not o.error:
                r = o.value
                want = b"" if method == "HEAD" or status in (204, 304) else body
                try:
                    y = int(r.status_code == status and r.content == want and all(r.headers.get(k) == v for k, v in headers))
                except Exception:
                    y = 0
                if kind in FAULTS and method == "HEAD":
                    y = int(r.status_code == 200 and r.content == b"")
        spent = time.time() - t0
        received, _ = self.server.take()
        late = int(kind in ("full", "stall", "stall_early", "stall_status", "stall_body") and spent > LIMIT)
        self.ev.append(dict(op=a["op"], method=method, kind=kind, status=status, e=o.error or "", y=y, heard=len(received), late=late,
                            about=f"timeout {self.client.timeout} {round(spent, 2)} s {o.message or ''}"[:200]))

    def close(self):
        if self.up:
            self.server.stop()
        self.other.stop()
        if self.full:
            self.full.close()


def session(job):
    import random

    content, seed = job
    rig = Rig(random.Random(seed))
    for a in content:
        rig.act(a)
    rig.close()
    return rig.ev


def odd(seed):
    """Liveness of clients whose URL, proxy or timeout make no sense: false, never an error."""

    import random

    rng = random.Random(seed)
    clean_env()
    from diamondback import RestClient

    server = net.Server(1)
    good = f"http://{server.place}"
    out = []
    cases = [(u, {}, 5.0) for u in (None, "", "/", "nonsense", "http://", "http://127.0.0.1:0", "http://127.0.0.1:99999", "ftp://127.0.0.1/x", "http://[::1", "http://no-such-host.invalid", "http:// 127", "127.0.0.1", 5)]
    cases += [(good, p, 5.0) for p in (dict(http="http://127.0.0.1:1"), dict(http="nonsense://x"))] + [(good, {}, w) for w in ("text", (1, 2, 3), -1, 0)]
    rng.shuffle(cases)
    for u, p, w in cases:
        client = RestClient()
        o = call(setattr, client, "url", u)
        if o.error:
            out.append(dict(case=repr((u, p, w)), e="", y=0))
            continue
        client.proxy, client.timeout = p, w
        o = call(lambda: client.live, seconds=40.0)
        out.append(dict(case=repr((u, p, w)), e=o.error or "", y=1 if o.value is True else 0 if o.value is False else -1))
    server.stop()
    return out


def run(ctx):
    rng = ctx.rng
    inv = ("Total", "UsableForEver", "NeverTwice")
    rows = ctx.explore("FaultMC", dict(Depth="2", Statuses="{200, 404, 503}", Kinds=KINDS, Ops='{"request", "live"}'), invariants=inv, label="every pair of calls")
    single = ctx.explore("FaultMC", dict(Depth="1", Statuses="{" + ", ".join(map(str, STATUSES)) + "}", Kinds='{"length", "chunked", "close", "gzip", "empty", "large"}', Ops='{"request", "live"}'), invariants=inv, label="every status")
    ctx.count("pairs of calls of the specification", len(rows))
    jobs = []
    # A service that stalls costs the time of a timeout: fewer of these.
    cost = [sum(a["kind"] in ("full", "stall", "stall_early", "stall_status", "stall_body", "late", "slow") for a in r["h"]) for r in rows]
    cheap = [r["h"] for r, c in zip(rows, cost) if not c]
    dear = [r["h"] for r, c in zip(rows, cost) if c]
    cheap, dear = rng.sample(cheap, min(len(cheap), ctx.pick(900, 9000))), rng.sample(dear, min(len(dear), ctx.pick(700, 9000)))
    pairs = cheap + dear
    rng.shuffle(pairs)
    for i in range(0, len(pairs), 8):
        jobs.append(([a for h in pairs[i:i + 8] for a in h], rng.random()))
    single = [r["h"][0] for r in single]
    for _ in range(ctx.pick(1, 4)):
        rng.shuffle(single)
        for i in range(0, len(single), 20):
            jobs.append((single[i:i + 20], rng.random()))
    home = tempfile.mkdtemp(prefix="verif-rest-")
    os.environ["HOME"] = home
    results = forked(jobs, session, width=24, seconds=300.0)
    odds = forked([rng.random() for _ in range(2)], odd, seconds=300.0)
    os.rmdir(home)
    traces = []
    for job, ev in zip(jobs, results):
        if ev is None:
            ctx.violate("a session of calls did not finish", dict(history=job[0][:40]))
        else:
            traces.append(dict(cfg=0, ev=ev))
    for rows in odds:
        for x in rows or ():
            ctx.expect(x["e"] == "" and x["y"] == 0, "liveness of a client that cannot reach a service is not false", lambda: x)
    ctx.count("calls", sum(len(x["ev"]) for x in traces))
    ctx.sample(traces[-1]["ev"][:6])
    ctx.assumptions.append(f"a timeout of {SHORT} s is honoured if the call ends within {LIMIT} s; statuses of 600 and above are not judged")
    ctx.judge("FaultTrace", traces, dict(InitOf="<- XInit", StepOf="<- XStep"))
