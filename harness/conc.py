"""Runs concurrent programs against the log under every schedule of bounded preemption, one process for each schedule.

Reads {repo, programs, bound, opcodes, limit} from standard input, writes the distinct outcomes of each program. Threads are
real; one runs at a time, and hands over only at lines (or opcodes) of the package, at lock operations and at stream writes.
Locks are replaced before loguru and the package are imported, so that a schedule in which every thread waits is seen as such.
"""

import _thread
import json
import os
import select
import signal
import sys
import threading
import time

real_lock = _thread.allocate_lock
real_start = _thread.start_new_thread


class Scheduler:
    def __init__(self):
        self.active = False

    def start(self, n, prefix, bound):
        self.n, self.prefix, self.bound = n, prefix, bound
        self.gate = [real_lock() for _ in range(n)]
        for x in self.gate:
            x.acquire()
        self.finished = real_lock()
        self.finished.acquire()
        self.wait = [None] * n  # the lock a thread waits for
        self.timed = [False] * n
        self.done = [False] * n
        self.ids = {}
        self.current = 0
        self.log = []  # (enabled, chosen, current or None)
        self.steps = 0
        self.dead = ""
        self.active = True

    def me(self):
        return self.ids.get(_thread.get_ident()) if self.active else None

    def enabled(self):
        return [i for i in range(self.n) if not self.done[i] and (self.wait[i] is None or self.timed[i] or self.wait[i].free(i))]

    def choose(self, current):
        """Chooses the next thread; current is None if the present one cannot go on."""

        able = self.enabled()
        if not able:
            return None
        if len(able) == 1:
            return able[0]
        k = len(self.log)
        if k < len(self.prefix):
            pick = self.prefix[k]
            if pick not in able:
                pick = able[0]
        else:
            pick = current if current in able else able[0]
        self.log.append((able, pick, current if current in able else None))
        return pick

    def halt(self, why):
        if not self.dead:
            self.dead = why
        self.active = False
        self.finished.release()
        while True:
            time.sleep(1000)

    def switch(self, me, current):
        self.steps += 1
        if self.steps > 200000:
            self.halt("no end")
        to = self.choose(current)
        if to is None:
            self.halt("deadlock")
        if to != me:
            self.current = to
            self.gate[to].release()
            self.gate[me].acquire()

    def point(self):
        me = self.me()
        if me is not None:
            self.switch(me, me)

    def block(self, lock, timed):
        """The present thread waits for a lock until it is chosen again."""

        me = self.me()
        self.wait[me], self.timed[me] = lock, timed
        self.switch(me, None)
        self.wait[me], self.timed[me] = None, False

    def exit(self, me):
        self.done[me] = True
        if all(self.done):
            self.active = False
            self.finished.release()
            return
        to = self.choose(None)
        if to is None:
            self.halt("deadlock")
        self.current = to
        self.gate[to].release()


SCHED = Scheduler()


class Lock:
    """A lock known to the scheduler."""

    reentrant = False

    def __init__(self):
        self.owner, self.depth = None, 0

    def free(self, i):
        return self.depth == 0 or (self.reentrant and self.owner == ("t", i))

    def _me(self):
        me = SCHED.me()
        return ("t", me) if me is not None else ("u", _thread.get_ident())

    def _may(self):
        return self.depth == 0 or (self.reentrant and self.owner == self._me())

    def acquire(self, blocking=True, timeout=-1):
        managed = SCHED.me() is not None
        if managed:
            SCHED.point()
        while not self._may():
            if not blocking:
                return False
            if not managed:
                if SCHED.active or timeout >= 0:
                    return False
                raise RuntimeError("deadlock outside the schedule")
            SCHED.block(self, timeout >= 0)
            if timeout >= 0 and not self._may():
                return False
        self.owner = self._me()
        self.depth += 1
        return True

    def release(self):
        if self.depth == 0 or (self.reentrant and self.owner != self._me()):
            raise RuntimeError("release of a lock that is not held")
        self.depth -= 1
        if not self.depth:
            self.owner = None
        SCHED.point()

    def locked(self):
        return self.depth > 0

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *_):
        self.release()

    def _at_fork_reinit(self):
        self.owner, self.depth = None, 0


class RLock(Lock):
    reentrant = True

    def _is_owned(self):
        return self.depth > 0 and self.owner == self._me()

    def _release_save(self):
        depth, self.depth, self.owner = self.depth, 0, None
        return depth

    def _acquire_restore(self, depth):
        self.acquire()
        self.depth = depth


class Stream:
    """A stream which takes its text piece by piece."""

    def __init__(self):
        self.parts = []

    def write(self, text):
        half = max(1, len(text) // 2)
        self.parts.append(text[:half])
        SCHED.point()
        self.parts.append(text[half:])

    def flush(self):
        pass

    def text(self):
        return "".join(self.parts)


def held(text):
    """The entries a stream holds; a text that is no entry is [0, 0]."""

    import re

    levels = dict(TRACE=5, DEBUG=10, INFO=20, SUCCESS=25, WARNING=30, ERROR=40, CRITICAL=50)
    out, at = [], 0
    line = re.compile(r"\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d\.\d\d[+-]\d\d:?\d\d (\S+) entry#(\d+)#\n")
    while at < len(text):
        m = line.match(text, at)
        if not m:
            return out + [[0, 0]]
        out.append([levels.get(m.group(1), -1), int(m.group(2))])
        at = m.end()
    return out


PROBES = ("CRITICAL", "ERROR", "WARNING", "INFO", "DEBUG")


def run_one(program, prefix, opcodes, root, sinks, Log):
    """One schedule; called in a process of its own."""

    clock = [0]
    ops = []

    def perform(thread, a, number):
        rec = dict(op=a["op"], name=a.get("name", ""), k=a.get("k", 0), no=0, id=number, thread=thread, inv=clock[0], res=None, e="")
        clock[0] += 1
        ops.append(rec)
        try:
            if a["op"] == "level":
                Log.level(a["name"].title() if a["name"] else None)
            elif a["op"] == "stream":
                Log.stream(sinks[a["k"]] if a["k"] else None)
            else:
                Log.write(a["name"].title(), f"entry#{number}#")
        except Exception as ex:
            rec["e"] = type(ex).__name__
        rec["res"] = clock[0]
        clock[0] += 1

    def tracer(frame, event, arg):
        if not frame.f_code.co_filename.startswith(root):
            return None
        if opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False

        def local(frame, event, arg):
            if event == ("opcode" if opcodes else "line"):
                SCHED.point()
            return local

        return local

    if program["setup"]:
        perform(-1, dict(op="stream", k=program["setup"]), 900)
    threads = program["threads"]
    SCHED.start(len(threads), prefix, None)
    ready = []

    def body(i):
        SCHED.ids[_thread.get_ident()] = i
        ready.append(i)
        SCHED.gate[i].acquire()
        sys.settrace(tracer)
        try:
            for j, a in enumerate(threads[i]):
                perform(i, a, 10 * (i + 1) + j + 1)
        finally:
            sys.settrace(None)
            SCHED.exit(i)

    for i in range(len(threads)):
        real_start(body, (i,))
    while len(ready) < len(threads):
        time.sleep(0.0002)
    first = SCHED.choose(None)
    SCHED.gate[first].release()
    ok = SCHED.finished.acquire(True, 20.0)
    dead = SCHED.dead if ok else "no answer"
    log = SCHED.log
    if not dead:
        # What the log does afterwards, told by calls in sequence, from another thread.
        SCHED.start(1, [], None)
        del ready[:]

        def after(_):
            SCHED.ids[_thread.get_ident()] = 0
            ready.append(0)
            SCHED.gate[0].acquire()
            for j, name in enumerate(PROBES):
                perform(90, dict(op="write", name=name), 901 + j)
            perform(90, dict(op="stream", k=4), 910)
            perform(90, dict(op="level", name="INFO"), 911)
            perform(90, dict(op="write", name="INFO"), 912)
            perform(90, dict(op="write", name="DEBUG"), 913)
            SCHED.exit(0)

        real_start(after, (0,))
        while not ready:
            time.sleep(0.0002)
        SCHED.gate[0].release()
        ok = SCHED.finished.acquire(True, 20.0)
        dead = (SCHED.dead and f"{SCHED.dead} afterwards") if ok else "no answer"
    return dict(dead=dead, log=log, ops=ops, sinks={k: held(s.text()) for k, s in sinks.items()})


def outcome(r):
    """A history without its clock: calls, each with the calls that ended before it began."""

    ops = r["ops"]
    order = sorted(range(len(ops)), key=lambda i: ops[i]["id"])
    where = {i: k + 1 for k, i in enumerate(order)}
    out = []
    for i in order:
        o = ops[i]
        pred = sorted(where[j] for j in range(len(ops)) if ops[j]["res"] is not None and ops[j]["res"] < o["inv"])
        out.append(dict(op=o["op"], name=o["name"], k=o["k"], no=o["no"], id=o["id"], pred=pred, e=o["e"] if o["res"] is not None else "pending"))
    sinks = [dict(k=int(k), held=v) for k, v in sorted(r["sinks"].items(), key=lambda x: int(x[0])) if v or int(k) != 0]
    return dict(ops=out, sinks=sinks)


def in_child(fn):
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            text = json.dumps(fn()).encode()
            while text:
                text = text[os.write(w, text):]
        except BaseException as ex:
            import traceback

            os.write(w, b"!" + "".join(traceback.format_exception(ex)).encode()[-2000:])
        finally:
            os._exit(0)
    os.close(w)
    parts, end = [], time.time() + 60
    while time.time() < end:
        if select.select([r], [], [], 1.0)[0]:
            part = os.read(r, 1 << 16)
            if not part:
                break
            parts.append(part)
    else:
        os.kill(pid, signal.SIGKILL)
    os.close(r)
    os.waitpid(pid, 0)
    text = b"".join(parts).decode()
    if text.startswith("!"):
        raise RuntimeError(text)
    return json.loads(text) if text else dict(dead="no answer", log=[], ops=[], sinks={})


def explore(program, bound, opcodes, limit, seconds, root, sinks, Log):
    """Every schedule with at most bound preemptions, up to a limit."""

    import random

    rng = random.Random(json.dumps(program))
    todo, outcomes, n, start = [([], 0)], {}, 0, time.time()
    while todo and n < limit and time.time() - start < seconds:
        # Any order will do; a random one spreads a truncated search.
        k = rng.randrange(len(todo))
        todo[k], todo[-1] = todo[-1], todo[k]
        prefix, used = todo.pop()
        r = in_child(lambda: run_one(program, prefix, opcodes, root, sinks, Log))
        n += 1
        o = outcome(r)
        key = json.dumps([o, r["dead"]])
        if key not in outcomes:
            outcomes[key] = dict(o, dead=r["dead"], schedule=[x[1] for x in r["log"]], times=1)
        else:
            outcomes[key]["times"] += 1
        choices = [x[1] for x in r["log"]]
        for i in range(len(prefix), len(r["log"])):
            able, pick, current = r["log"][i]
            for other in able:
                if other == pick:
                    continue
                cost = used + (1 if current is not None and other != current else 0)
                if cost <= bound:
                    todo.append((choices[:i] + [other], cost))
    return dict(schedules=n, left=len(todo), outcomes=list(outcomes.values()))


def main():
    job = json.loads(sys.stdin.read())
    _thread.allocate_lock = threading._allocate_lock = threading.Lock = Lock
    _thread.RLock = threading._CRLock = threading.RLock = RLock
    sys.dont_write_bytecode = True
    sys.path.insert(0, job["repo"])
    answer = sys.stdout
    streams = {0: Stream(), 1: Stream(), 3: Stream(), 4: Stream()}
    sys.stderr = streams[0]
    sys.stdout = streams[1]
    import warnings

    warnings.simplefilter("ignore")
    # Costs a handler ten milliseconds, and never changes.
    import functools
    import sysconfig

    sysconfig.get_path = functools.lru_cache(None)(sysconfig.get_path)
    try:
        # The package without its numerical parts, which a fork would copy.
        import types

        light = types.ModuleType("diamondback")
        light.__path__ = [os.path.join(job["repo"], "diamondback")]
        sys.modules["diamondback"] = light
        from diamondback.commons.log import Log
    except Exception:
        for name in [x for x in sys.modules if x.split(".")[0] in ("diamondback", "loguru")]:
            del sys.modules[name]
        from diamondback.commons.log import Log

    try:
        import loguru._better_exceptions

        loguru._better_exceptions.ExceptionFormatter()
    except Exception:
        pass
    sys.stderr = sys.__stderr__
    streams[0].parts.clear()
    import gc

    gc.collect()
    gc.freeze()
    root = os.path.join(os.path.realpath(job["repo"]), "diamondback") + os.sep
    alt = os.path.join(job["repo"], "diamondback") + os.sep
    root = alt if Log.level.__func__.__code__.co_filename.startswith(alt) else root
    out = []
    for program in job["programs"]:
        out.append(explore(program, job["bound"], job["opcodes"], job["limit"], job["seconds"], root, streams, Log))
    answer.write("RESULT" + json.dumps(out))
    answer.flush()


if __name__ == "__main__":
    main()
