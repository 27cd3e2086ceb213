"""Engine: runs TLC on the specifications in /verif/spec, and binds them to the code in /repo.

Two directions of binding are offered to the property modules.

  behaviours  TLC enumerates the behaviours of a specification (every history of bounded length, or every transition),
              and a property module replays each of them into the real code and compares every observed result.
  traces      a property module drives the real code, records what it observed, and TLC decides, event by event, whether
              the trace is a behaviour of the specification. The verdict is total: "ok" or the name of a failing clause.

Exit codes: 0 held, 1 with a VIOLATION line, 2 machinery failure (never used to report on the code under test).
"""

import atexit
import json
import math
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
OFF = 2000000011  # an observed number that is not on the exact grid of a specification
BATCH = 32000000  # bytes of recorded traces one run of TLC reads
BIG = 2000000012  # an observed number whose magnitude exceeds the grid
NAN = 2000000013  # not a number


class Machinery(Exception):
    """The machinery failed; nothing is said about the code."""


class Hang(BaseException):
    """A call into the code under test did not return in time."""


class Stuck(Exception):
    """Calls into the code under test keep not returning: what was observed stands, and the rest is not explored."""


HANGS = []


def _alarm(signum, frame):
    raise Hang()


def load_repo():
    """Makes the code of /repo importable, never writing byte code into it."""

    sys.dont_write_bytecode = True
    sys.pycache_prefix = None
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import warnings

    warnings.simplefilter("ignore")
    import diamondback

    path = os.path.realpath(os.path.dirname(diamondback.__file__))
    if path != os.path.realpath(os.path.join(REPO, "diamondback")):
        raise Machinery(f"diamondback imported from {path}")
    import numpy

    numpy.seterr(all="ignore")
    return diamondback


class Context:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.rng = random.Random(f"{pid}/{tier}/{seed}")
        self.t0 = time.time()
        self.states = self.transitions = self.validated = 0
        self.samples, self.runs, self.counts, self.assumptions, self.notes = [], [], {}, [], {}
        self.violations, self.known = [], []
        self.work = tempfile.mkdtemp(prefix=f"verif-{pid}-")
        atexit.register(shutil.rmtree, self.work, True)
        self.serial = 0

    # -- size helpers ---------------------------------------------------------------------------------------------
    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def sample(self, value):
        if len(self.samples) < 8:
            self.samples.append(value)

    # -- verdicts -------------------------------------------------------------------------------------------------
    def violate(self, clause, detail):
        """Records a violation of the property by the code under test."""

        if len(self.violations) < 25:
            self.violations.append(dict(property=self.pid, clause=clause, tier=self.tier, seed=self.seed, detail=detail))
        else:
            self.count("violations beyond the first 25")

    def expect(self, cond, clause, detail):
        if not cond:
            self.violate(clause, detail() if callable(detail) else detail)
        return cond

    # -- TLC ------------------------------------------------------------------------------------------------------
    def _tlc(self, module, cfg, env, workers, timeout, extra, label):
        self.serial += 1
        home = os.path.join(self.work, f"tlc{self.serial}")
        shutil.copytree(SPEC, home)
        lines, defs = [], []
        for line in cfg.splitlines():
            words = line.split(" ", 3)
            if words[0] == "CONSTANT" and words[2] == "=":
                defs.append(f"run_{words[1]} == {words[3]}")
                line = f"CONSTANT {words[1]} <- run_{words[1]}"
            lines.append(line)
        with open(os.path.join(home, "run.cfg"), "w") as fout:
            fout.write("\n".join(lines) + "\n")
        with open(os.path.join(home, "Run.tla"), "w") as fout:
            fout.write("---- MODULE Run ----\nEXTENDS " + module + "\n" + "\n".join(defs) + "\n====\n")
        heap = os.environ.get("VERIF_HEAP", "6g")
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-cp", JARS,
               "tlc2.TLC", "-config", "run.cfg", "-workers", str(workers), "-deadlock", "-noGenerateSpecTE",
               "-metadir", os.path.join(home, "meta"), *extra, "Run.tla"]
        t0 = time.time()
        try:
            run = subprocess.run(cmd, cwd=home, env={**os.environ, **env}, stdout=subprocess.PIPE,
                                 stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            raise Machinery(f"TLC {module} {label}: no answer in {timeout} s") from ex
        text = run.stdout
        generated = distinct = None
        for line in text.splitlines():
            if "states generated" in line and "distinct states found" in line:
                words = line.replace(",", "").split()
                try:
                    generated = int(words[words.index("states") - 1])
                    distinct = int(words[words.index("distinct") - 1])
                except ValueError:
                    pass
        if run.returncode != 0 or "Error:" in text:
            text = "\n".join(x for x in text.splitlines() if not x.startswith(("Parsing file", "Semantic processing")))
            raise Machinery(f"TLC {module} {label}: exit {run.returncode}\n" + text[:2500])
        generated, distinct = generated or 0, distinct or 0
        self.states += distinct
        self.transitions += generated
        self.runs.append(dict(module=module, label=label, distinct_states=distinct, states_generated=generated,
                              wall_s=round(time.time() - t0, 1)))
        shutil.rmtree(os.path.join(home, "meta"), True)
        return text, home

    @staticmethod
    def cfg(constants=None, spec=("Init", "Next"), invariants=(), properties=(), constraints=(), actions=(), view=None,
            postconditions=()):
        lines = [f"INIT {spec[0]}", f"NEXT {spec[1]}"] if isinstance(spec, tuple) else [f"SPECIFICATION {spec}"]
        for name, value in (constants or {}).items():
            op = "<-" if str(value).startswith("<- ") else "="
            lines.append(f"CONSTANT {name} {op} {str(value).removeprefix('<- ')}")
        lines += [f"INVARIANT {x}" for x in invariants] + [f"PROPERTY {x}" for x in properties]
        lines += [f"CONSTRAINT {x}" for x in constraints] + [f"ACTION_CONSTRAINT {x}" for x in actions]
        lines += [f"POSTCONDITION {x}" for x in postconditions]
        if view:
            lines.append(f"VIEW {view}")
        return "\n".join(lines) + "\n"

    def explore(self, module, constants=None, invariants=(), properties=(), emit=("Emit",), emit_actions=(),
                constraints=(), view=None, workers=8, timeout=800, extra=(), spec=("Init", "Next"), env=None, label="design"):
        """Checks a design exhaustively within its constants, and returns the behaviours it emitted."""

        out = os.path.join(self.work, f"out{self.serial + 1}.ndjson")
        cfg = self.cfg(constants, spec, invariants, properties, (*constraints, *emit), emit_actions, view)
        before = (self.states, self.transitions)
        self._tlc(module, cfg, {"OUT": out, **(env or {})}, workers, timeout, list(extra), label)
        rows = []
        if os.path.exists(out):
            try:
                with open(out) as fin:
                    rows = [json.loads(line) for line in sorted(fin) if line.strip()]
                rows = [json.loads(row) if isinstance(row, str) else row for row in rows]
            except json.JSONDecodeError as ex:
                # Long rows of concurrent workers may interleave: a single worker never does.
                if workers == 1:
                    raise Machinery(f"TLC {module} {label}: unreadable output") from ex
                os.remove(out)
                self.states, self.transitions = before
                self.runs.pop()
                return self.explore(module, constants, invariants, properties, emit, emit_actions, constraints, view, 1, timeout,
                                    extra, spec, env, label)
            os.remove(out)
        return rows

    def traces(self, module, traces, constants=None, invariants=(), workers=8, timeout=800, label="traces", extra=()):
        """Validates recorded traces. Returns a list of (trace number, event number, failing clause)."""

        if not traces:
            raise Machinery("no traces")
        batches = [[]]
        volume = 0
        for k, trace in enumerate(traces):  # what TLC reads at once is bounded
            size = len(json.dumps(trace))
            if batches[-1] and volume + size > BATCH:
                batches.append([])
                volume = 0
            batches[-1].append(k)
            volume += size
        if len(batches) > 1:
            return [(b[t], l, v) for b in batches
                    for t, l, v in self.traces(module, [traces[k] for k in b], constants, invariants, workers, timeout, label, extra)]
        path = os.path.join(self.work, f"traces{self.serial + 1}.ndjson")
        out = os.path.join(self.work, f"verdicts{self.serial + 1}.csv")
        with open(path, "w") as fout:
            for trace in traces:
                fout.write(json.dumps(trace) + "\n")
        cfg = self.cfg(constants, ("TInit", "TNext"), invariants, (), ("Report",))
        self._tlc(module, cfg, {"TRACES": path, "OUT": out}, workers, timeout, list(extra), label)
        done, fails = set(), {}
        with open(out) as fin:
            for line in fin:
                line = line.strip()
                if not line:
                    continue
                t, l, v = line.split(";", 2)
                v = v.strip('"')
                if v == "ok":
                    done.add(int(t))
                else:
                    fails.setdefault(int(t), (int(t) - 1, int(l) - 1, v))
        if len(done | set(fails)) != len(traces):
            raise Machinery(f"{module}: {len(done)} accepted, {len(fails)} rejected of {len(traces)} traces")
        self.validated += len(traces)
        os.remove(path)
        os.remove(out)
        return [fails[k] for k in sorted(fails)]

    def judge(self, module, traces, constants=None, note=None, **kw):
        """Validates recorded traces, and records a violation for each rejected one."""

        for t, l, clause in self.traces(module, traces, constants, **kw):
            trace = traces[t]
            event = trace["ev"][l] if 0 <= l < len(trace["ev"]) else None
            self.violate(f"{module}: {clause}", dict(cfg=trace["cfg"], event_number=l, event=event,
                                                     history=trace["ev"][max(0, l - 12): l], note=note or trace.get("note")))

    def oracle(self, module, sessions, constants=None, invariants=(), label="oracle", **kw):
        """Runs a deterministic specification on sessions; returns the exact result of every event of each."""

        path = os.path.join(self.work, f"sessions{self.serial + 1}.ndjson")
        with open(path, "w") as fout:
            for session in sessions:
                fout.write(json.dumps(dict(cfg=session["cfg"], ev=session["ev"])) + "\n")
        rows = self.explore(module, constants or dict(InitOf="<- XInit", StepOf="<- XStep"), invariants, spec=("OInit", "ONext"),
                            env={"TRACES": path}, label=label, **kw)
        os.remove(path)
        out = [[None] * len(s["ev"]) for s in sessions]
        for row in rows:
            out[row["t"] - 1][row["l"] - 1] = row["y"]
        if any(y is None for ys in out for y in ys):
            raise Machinery(f"{module}: missing results")
        self.validated += len(sessions)
        return out

    # -- result ---------------------------------------------------------------------------------------------------
    def finish(self, level="model_checking"):
        fresh = []
        listed = known_findings(self.pid)
        seen = set()
        for v in self.violations:
            hit = next((k for k in listed if matches(k, v)), None)
            if hit is None:
                fresh.append(v)
            elif hit["id"] not in seen:
                seen.add(hit["id"])
                print(f"KNOWN-FINDING: property={self.pid} {hit['what']}")
        evidence = dict(
            property=self.pid, tier=self.tier, seed=self.seed, level=level,
            coverage=dict(states=self.states, transitions=self.transitions,
                          traces_validated_against_impl=self.validated, samples=self.samples or ["none"],
                          tlc_runs=self.runs, counts=self.counts, **self.notes),
            assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(fresh),
        )
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as fout:
            json.dump(evidence, fout, indent=1, default=str)
        if not fresh:
            print(f"{self.pid} held: {self.states} states, {self.transitions} transitions, {self.validated} traces, "
                  f"{round(time.time() - self.t0, 1)} s")
            return 0
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", f"{self.pid}-{self.tier}-{self.seed}.json")
        with open(path, "w") as fout:
            json.dump(fresh, fout, indent=1, default=str)
        for v in fresh[:5]:
            print(f"  {v['clause']}: {json.dumps(v['detail'], default=str)[:600]}")
        print(f"VIOLATION property={self.pid} replay={path}")
        return 1


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as fin:
        return [x for x in json.load(fin)["findings"] if x["property"] == pid]


def matches(finding, violation):
    """A finding suppresses only violations of its clause whose detail carries every listed key and value."""

    if finding["clause"] != violation["clause"]:
        return False
    detail = violation["detail"]
    return isinstance(detail, dict) and all(k in detail and detail[k] == v for k, v in finding["where"].items())


class Observed:
    """The outcome of one call into the code under test."""

    __slots__ = ("value", "error", "message")

    def __init__(self, value=None, error=None, message=None):
        self.value, self.error, self.message = value, error, message

    def __repr__(self):
        return f"raised {self.error}: {self.message}" if self.error else f"returned {self.value!r}"


def call(fn, *args, seconds=20.0, **kwargs):
    """Calls into the code under test; an exception or a missing answer is an observation, never a machinery failure."""

    if threading.current_thread() is not threading.main_thread():
        # Alarms belong to the main thread, which minds the others.
        try:
            return Observed(fn(*args, **kwargs))
        except Machinery:
            raise
        except Exception as ex:
            return Observed(error=type(ex).__name__, message=str(ex)[:200])
    if len(HANGS) >= 8:
        raise Stuck(f"{len(HANGS)} calls did not return, such as {HANGS[0]}")
    seconds = min(seconds, 3.0) if HANGS else seconds
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return Observed(fn(*args, **kwargs))
    except Hang:
        HANGS.append(f"{getattr(fn, '__qualname__', fn)}{args!r:.300}{kwargs!r:.300}")
        return Observed(error="Hang", message=f"no answer in {seconds} s")
    except Machinery:
        raise
    except Exception as ex:
        return Observed(error=type(ex).__name__, message=str(ex)[:200])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0.0)
        signal.signal(signal.SIGALRM, old)


def snap(value, unit=1.0, tol=1.0e-6, limit=2.0**30):
    """Maps an observed float to an exact integer multiple of unit, or OFF, BIG, NAN."""

    try:
        v = float(value) / unit
    except Exception:
        return NAN
    if not math.isfinite(v):
        return NAN
    if abs(v) > limit:
        return BIG
    r = round(v)
    return r if abs(v - r) <= tol * max(1.0, abs(v)) else OFF


def snapc(value, unit=1.0, tol=1.0e-6, limit=2.0**30):
    try:
        z = complex(value)
    except Exception:
        return [NAN, NAN]
    return [snap(z.real, unit, tol, limit), snap(z.imag, unit, tol, limit)]


def quant(value, unit, limit=2.0**30):
    """Rounds an observed float to the nearest multiple of unit (fixed point), or BIG, NAN."""

    try:
        v = float(value) / unit
    except Exception:
        return NAN
    if not math.isfinite(v):
        return NAN
    return BIG if abs(v) > limit else round(v)


def main(argv):
    import importlib

    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    for item in argv[1:]:
        if item in ("quick", "thorough"):
            tier = item
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        ctx = Context(pid, tier, seed)
        module = importlib.import_module(f"props.{pid.lower()}")
        o = call(load_repo, seconds=120.0)
        if o.error == "Machinery":
            raise Machinery(o.message)
        if o.error:
            ctx.violate("import", repr(o))
        else:
            try:
                module.run(ctx)
            except Stuck as ex:
                ctx.violate("calls return", str(ex))
            except Exception as ex:
                # What was observed before stands: a violation is reported, although the rest was not explored.
                if not ctx.violations:
                    raise
                print(f"{pid}: not explored further: {type(ex).__name__}: {ex}", file=sys.stderr)
        if HANGS and not ctx.violations:
            ctx.violate("calls return", f"a call did not return: {HANGS[0]}")
        code = ctx.finish()
    except Machinery as ex:
        print(f"MACHINERY {pid}: {ex}", file=sys.stderr)
        return 2
    except Exception:
        print(f"MACHINERY {pid}:", file=sys.stderr)
        traceback.print_exc()
        return 2
    return code
