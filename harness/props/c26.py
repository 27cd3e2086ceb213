"""C26 Checkpoints: a component serialized mid-stream resumes exactly where it stopped."""

import json
import os
import subprocess
import sys

from common import *
from components import KINDS
from engine import REPO, call
from sessions import Session, random_plan, sweep

CHILD = r"""
import sys, json, base64, pickle
sys.dont_write_bytecode = True
sys.path[:0] = [sys.argv[1], sys.argv[2]]
import warnings
warnings.simplefilter("ignore")
import numpy
numpy.seterr(all="ignore")
from diamondback.commons.serial import Serial
out = []
for text, calls in pickle.loads(base64.b64decode(sys.stdin.read())):
    results = []
    try:
        obj = Serial.decode(text)
        for c in calls:
            o = c.apply(obj)
            results.append((o.value, o.error))
    except Exception as ex:
        results.append((None, type(ex).__name__))
    out.append(results)
sys.stdout.write("RESULT" + base64.b64encode(pickle.dumps(out)).decode())
"""


def restart(jobs):
    """Decodes every text in a process that has done nothing else, and makes the calls there."""

    import base64
    import pickle

    data = base64.b64encode(pickle.dumps(jobs)).decode()
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    run = subprocess.run([sys.executable, "-c", CHILD, REPO, here], input=data, text=True, capture_output=True, timeout=600)
    at = run.stdout.find("RESULT")
    if at < 0:
        return None, run.stderr[-800:]
    return pickle.loads(base64.b64decode(run.stdout[at + 6:])), ""


def run(ctx):
    rng = ctx.rng
    rows = ctx.explore("ComponentMC", dict(Depth=str(ctx.pick(5, 6)), Acts='{"encode"}', Instances="3", Slots="2", Ops="1..2", Recipes="{1}"),
                       invariants=("Determined", "ResultOfHistory"), properties=("Isolation", "Immutable"), label="every checkpoint")
    rows = [r for r in rows if any(a["op"] == "decode" for a in r["plan"])]
    ctx.count("plans of the specification", len(rows))
    traces = []
    for kind, some in sweep(ctx, rows, ctx.pick(60, 1200), ctx.pick(6, 40), ("encode", "decode"), ctx.pick(30, 300), share=False):
        traces += some
    ctx.sample(traces[0])
    # A checkpoint that outlives its process: the decoded component continues in a fresh one.
    sessions, jobs = [], []
    for kind in KINDS:
        for _ in range(ctx.pick(4, 20) if not kind.slow else 2):
            s = Session(kind, rng, share=False)
            s.new(1, 1)
            for _ in range(rng.randint(0, 4)):
                if not s.failed:
                    s.call(1, rng.randint(1, 3))
            if s.failed:
                traces.append(s.trace)
                continue
            s.encode(1, 1)
            if s.failed:
                traces.append(s.trace)
                continue
            numbers = [rng.randint(1, 3) for _ in range(3)]
            sessions.append((s, numbers))
            jobs.append((kind, s.text[1], [s.call_of(n).clone() for n in numbers]))
    for kind in KINDS:
        # One process per kind: nothing but decoding has happened in it.
        mine = [(s, n, j) for (s, n), j in zip(sessions, jobs) if j[0] is kind]
        if not mine:
            continue
        done, why = restart([(j[1], j[2]) for _, _, j in mine])
        for k, (s, numbers, _) in enumerate(mine):
            results = done[k] if done is not None else [(None, "Crash")]
            s.trace["note"]["process"] = why
            s.log("decode", 50, 1, e="" if len(results) == len(numbers) else results[0][1])
            for n, (value, error) in zip(numbers, results):
                o = call(lambda: value)
                o.error = error
                s.log("call", 50, n, s.names.of(o), error)
            for n in numbers:
                if not s.failed:
                    s.call(1, n)
            traces.append(s.trace)
    ctx.count("components continued in another process", len(sessions))
    # Structures of several components, shared or not.
    for _ in range(ctx.pick(60, 600)):
        traces.append(structure(rng))
    ctx.judge("ComponentTrace", traces, dict(InitOf="<- XInit", StepOf="<- XStep"), label="every kind of component")


def structure(rng):
    """Components of one kind in one structure: what was shared is shared after decoding, what was not is not."""

    from diamondback import Serial

    kind = rng.choice([k for k in KINDS if not k.slow])
    s = Session(kind, rng, share=False)
    s.new(1, 1)
    s.new(2, 1)
    for _ in range(rng.randint(0, 4)):
        if not s.failed:
            s.call(rng.randint(1, 2), rng.randint(1, 3))
    if s.failed:
        return s.trace
    style = rng.choice(("list", "dict", "nested"))
    a, b = s.obj[1], s.obj[2]
    x = [a, b, a] if style == "list" else dict(a=a, b=b, c=a) if style == "dict" else [[a], dict(b=b), (a,)]
    o = call(lambda: Serial.decode(Serial.encode(x, rng.random() < 0.5)))
    s.log("encode", 1, 1, e=o.error)
    s.log("encode", 2, 2, e=o.error)
    if o.error:
        return s.trace
    try:
        p, q, r = o.value if style == "list" else o.value.values() if style == "dict" else (o.value[0][0], o.value[1]["b"], o.value[2][0])
    except Exception as ex:
        s.log("decode", 3, 1, e=type(ex).__name__)
        return s.trace
    s.log("decode", 3, 1)
    s.log("decode", 4, 2)
    s.slots = {}
    s.obj.update({3: p, 4: q})
    s.history.update({3: list(s.history[1]), 4: list(s.history[2])})
    for _ in range(8):
        if s.failed:
            break
        i, n = rng.randint(1, 4), rng.randint(1, 3)
        if i == 3:
            # The first and the third member are one component: calls to either are calls to it.
            s.obj[3] = rng.choice((p, r))
        s.call(i, n)
    for i in sorted(s.history):
        h = list(s.history[i])
        if s.failed:
            break
        s.new(100 + i, h[0], fresh=True)
        for n in h[2 if s.fit else 1:]:
            if not s.failed:
                s.call(100 + i, n, fresh=True)
    return s.trace
