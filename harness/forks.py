"""Runs jobs in forked children, a fresh condition for each: nothing a job leaves behind reaches another."""

import gc
import json
import os
import select
import signal
import sys
import time

from engine import Machinery


def forked(jobs, fn, width=8, seconds=60.0):
    """Returns [fn(job), ...], or None in place of the result of a child which died or did not answer in time."""

    sys.stdout.flush()
    sys.stderr.flush()
    gc.collect()
    gc.freeze()
    results, live, at = [None] * len(jobs), {}, 0
    while at < len(jobs) or live:
        while at < len(jobs) and len(live) < width:
            r, w = os.pipe()
            pid = os.fork()
            if not pid:
                code = 1
                try:
                    os.close(r)
                    signal.setitimer(signal.ITIMER_REAL, 0.0)
                    signal.signal(signal.SIGALRM, signal.SIG_DFL)
                    text = json.dumps(fn(jobs[at])).encode()
                    while text:
                        text = text[os.write(w, text):]
                    code = 0
                except BaseException as ex:
                    try:
                        import traceback

                        text = ("".join(traceback.format_exception(ex))).encode()
                        os.write(w, b"!" + text[-3000:])
                    except BaseException:
                        pass
                finally:
                    os._exit(code)
            os.close(w)
            live[r] = (pid, at, [], time.time() + seconds)
            at += 1
        for r in select.select(list(live), [], [], 0.5)[0]:
            pid, k, parts, _ = live[r]
            part = os.read(r, 1 << 16)
            if part:
                parts.append(part)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del live[r]
            text = b"".join(parts).decode(errors="replace")
            if text.startswith("!"):
                raise Machinery("child: " + text[1:])
            results[k] = json.loads(text) if text else None
        now = time.time()
        for r in [r for r in live if live[r][3] < now]:
            pid, k, parts, _ = live.pop(r)
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
    return results
