"""Runs operations of several threads under a schedule: one thread runs at a time, and hands over at lines of the package."""

import os
import sys
import threading

import engine


class Counter:
    """Counts the lines of the package a thread runs, and stops it where it is told to."""

    def __init__(self, package, opcodes=False):
        self.package, self.opcodes = package, opcodes
        self.count, self.at, self.stop = 0, None, None

    def enter(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.package):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self.line

    def line(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            self.count += 1
            if self.at is not None and self.count >= self.at:
                self.at = None
                self.stop()
        return self.line


def package():
    import diamondback

    return os.path.dirname(os.path.abspath(diamondback.__file__)) + os.sep


def alone(operation, opcodes=False):
    """The result of an operation, and how many lines it runs."""

    c = Counter(package(), opcodes)
    before = sys.gettrace()
    sys.settrace(c.enter)
    try:
        o = engine.call(operation)
    finally:
        sys.settrace(before)
    return o, c.count


class Schedule:
    def __init__(self, programs, stops, opcodes=False, patience=3.0):
        """programs: for each thread its operations; stops: <thread, operation, line or None> in turn, None for its end."""

        self.programs, self.stops, self.patience = programs, stops, patience
        self.n = len(programs)
        self.gates = [threading.Semaphore(0) for _ in programs]
        self.back = threading.Semaphore(0)
        self.done = [0] * self.n
        self.results = [[] for _ in programs]
        self.target = [None] * self.n
        self.free = False
        self.counters = [Counter(package(), opcodes) for _ in programs]
        self.preempted = 0

    def _hand(self, t):
        if not self.free:
            self.back.release()
            self.gates[t].acquire()

    def _pause(self, t):
        if not self.free:
            self.preempted += 1
            self._hand(t)

    def _main(self, t):
        c = self.counters[t]
        self.gates[t].acquire()
        for o, operation in enumerate(self.programs[t], 1):
            c.count, c.stop = 0, lambda: self._pause(t)
            c.at = self.target[t][1] if self.target[t] and self.target[t][0] == o else None
            sys.settrace(c.enter)
            r = engine.call(operation)
            sys.settrace(None)
            self.results[t].append(r)
            self.done[t] = o
            # At the end of an operation, unless the present run goes on to a later one.
            if o == len(self.programs[t]):
                self.back.release()
            elif not self.target[t] or self.target[t][0] <= o:
                self._hand(t)

    def run(self):
        threads = [threading.Thread(target=self._main, args=(t,), daemon=True) for t in range(self.n)]
        for x in threads:
            x.start()
        for t, o, line in self.stops:
            if self.done[t] >= o:
                continue
            self.target[t] = (o, line)
            c = self.counters[t]
            if self.done[t] == o - 1:
                c.at = line if line is not None and line > c.count else None
            self.gates[t].release()
            if not self.back.acquire(timeout=self.patience):
                # The thread waits for something another one holds: schedules of the package's own locks are left to themselves.
                self.free = True
                break
        self.free = True
        for g in self.gates:
            for _ in range(len(self.stops) + 9):
                g.release()
        for x in threads:
            x.join(60.0)
        return not any(x.is_alive() for x in threads)
