"""C25 Log is linearizable under concurrent writes and reconfiguration."""

import json
import os
import subprocess
import sys
import threading

from common import *
from engine import REPO, VERIF, Machinery

CALLS = '{[op |-> "level", name |-> "ERROR", k |-> 0], [op |-> "level", name |-> "DEBUG", k |-> 0], [op |-> "level", name |-> "BOGUS", k |-> 0], \
[op |-> "stream", name |-> "", k |-> 3], [op |-> "stream", name |-> "", k |-> 4], [op |-> "stream", name |-> "", k |-> 0], \
[op |-> "write", name |-> "INFO", k |-> 0], [op |-> "write", name |-> "ERROR", k |-> 0], [op |-> "write", name |-> "BOGUS", k |-> 0]}'
FEW = '{[op |-> "level", name |-> "ERROR", k |-> 0], [op |-> "stream", name |-> "", k |-> 4], [op |-> "stream", name |-> "", k |-> 0], [op |-> "write", name |-> "INFO", k |-> 0], [op |-> "write", name |-> "BOGUS", k |-> 0]}'


def canonical(program):
    """Threads are interchangeable."""

    return json.dumps(dict(setup=program["setup"], threads=sorted(program["threads"], key=json.dumps)))


def concurrent(ctx, programs, bound, opcodes, limit, seconds, width=8):
    """Explores the schedules of programs in worker processes."""

    shares = [programs[i::width] for i in range(width)]
    results = [None] * width
    errors = []

    def one(i):
        if not shares[i]:
            results[i] = []
            return
        job = dict(repo=REPO, programs=shares[i], bound=bound, opcodes=opcodes, limit=limit, seconds=seconds)
        try:
            p = subprocess.run([sys.executable, "-B", os.path.join(VERIF, "harness", "conc.py")], input=json.dumps(job), text=True,
                               capture_output=True, timeout=800)
            at = p.stdout.find("RESULT")
            if at < 0:
                errors.append(p.stderr[-2000:])
            else:
                results[i] = json.loads(p.stdout[at + 6:])
        except subprocess.TimeoutExpired:
            errors.append("no answer")

    threads = [threading.Thread(target=one, args=(i,)) for i in range(width)]
    for x in threads:
        x.start()
    for x in threads:
        x.join()
    if errors:
        raise Machinery("concurrent: " + errors[0])
    out = [None] * len(programs)
    for i in range(width):
        out[i::width] = results[i]
    return out


def linearize(ctx, histories):
    """Which histories have a sequential order, decided by TLC."""

    path = os.path.join(ctx.work, f"histories{ctx.serial + 1}.ndjson")
    with open(path, "w") as fout:
        for x in histories:
            fout.write(json.dumps(dict(ops=x["ops"], sinks=x["sinks"])) + "\n")
    rows = ctx.explore("LogLin", emit=("ReportLin",), spec=("LInit", "LNext"), env={"TRACES": path}, label="linearizability")
    os.remove(path)
    ctx.validated += len(histories)
    return {int(x) - 1 for x in rows}


def run(ctx):
    rng = ctx.rng
    inv = ("Agree", "LockSound", "NoDeadlock")
    base = dict(Locked="TRUE", Setups="{0, 3}")
    pairs = ctx.explore("LogConc", dict(base, Threads="{1, 2}", MaxCalls="2", Calls=CALLS if ctx.thorough else FEW), invariants=inv, emit=("EmitProgram",), label="two threads, two calls")
    singles = ctx.explore("LogConc", dict(base, Threads="{1, 2}", MaxCalls="1", Calls=CALLS), invariants=inv, emit=("EmitProgram",), label="two threads, one call")
    triples = ctx.explore("LogConc", dict(base, Threads="{1, 2, 3}", MaxCalls="1", Calls=CALLS), invariants=inv, emit=("EmitProgram",), label="three threads")
    rows = ctx.explore("LogConc", dict(base, Locked="FALSE", Threads="{1, 2}", MaxCalls="1", Calls=CALLS), emit=("EmitDisagreement",), label="without the lock")
    if not rows:
        raise Machinery("the specification does not depend on the lock")
    ctx.notes["states that disagree without the lock"] = len(rows)

    def distinct(rows):
        return [json.loads(x) for x in sorted({canonical(r) for r in rows})]

    singles, pairs, triples = distinct(singles), distinct(pairs), distinct(triples)
    pairs = [p for p in pairs if sum(len(x) for x in p["threads"]) > 2]
    ctx.count("programs of the specification", len(singles) + len(pairs) + len(triples))
    threes = [p for p in pairs if sum(len(x) for x in p["threads"]) == 3]
    fours = [p for p in pairs if sum(len(x) for x in p["threads"]) == 4]
    plans = [
        # (programs, preemptions, opcodes, schedules of a program, seconds of a program)
        (singles, ctx.pick(2, 3), False, ctx.pick(200, 4000), ctx.pick(6, 60)),
        (threes, 1, False, 1000, 20),
        (rng.sample(fours, min(len(fours), ctx.pick(60, 400))), 1, False, 1000, 20),
        (rng.sample(threes + fours, min(len(threes + fours), ctx.pick(30, 200))), 2, False, ctx.pick(60, 1000), ctx.pick(4, 12)),
        (rng.sample(triples, min(len(triples), ctx.pick(40, 200))), 2, False, ctx.pick(60, 400), ctx.pick(4, 10)),
        (rng.sample(singles, min(len(singles), ctx.pick(30, 90))), ctx.pick(1, 2), True, ctx.pick(60, 600), ctx.pick(4, 12)),
    ]
    histories, total, left = {}, 0, 0
    for programs, bound, opcodes, limit, seconds in plans:
        for program, r in zip(programs, concurrent(ctx, programs, bound, opcodes, limit, seconds)):
            total += r["schedules"]
            left += r["left"] > 0
            for o in r["outcomes"]:
                key = json.dumps([o["ops"], o["sinks"], o["dead"]])
                histories.setdefault(key, dict(o, program=program))
    ctx.count("schedules of the code", total)
    ctx.count("programs whose schedules were sampled", left)
    ctx.count("distinct histories", len(histories))
    histories = [histories[k] for k in sorted(histories)]
    alive = []
    for o in histories:
        if o["dead"]:
            ctx.violate(f"a schedule does not finish: {o['dead']}", dict(program=o["program"], schedule=o["schedule"], ops=o["ops"]))
        else:
            alive.append(o)
    if alive:
        accepted = linearize(ctx, alive)
        for i, o in enumerate(alive):
            if i not in accepted:
                ctx.violate("no sequential order of the calls explains what the streams received", dict(program=o["program"], schedule=o["schedule"], ops=o["ops"], sinks=o["sinks"]))
        ctx.sample(dict(alive[len(alive) // 2]))
    ctx.assumptions.append("threads hand over at lines or opcodes of the package, at lock operations and at stream writes; other operations of loguru are atomic")
