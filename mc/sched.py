"""A scheduler for threads that switches at chosen source lines.

Each thread runs under sys.settrace. Every line (or bytecode) event inside the
jsonpickle package is a point at which the thread may be suspended. Only one
thread runs at a time, so an execution is fully determined by the points at
which it was suspended.
"""

import os
import sys
import threading

import jsonpickle

ROOT = os.path.dirname(os.path.abspath(jsonpickle.__file__)) + os.sep
BLOCKED = 0.25  # seconds; only reached when a thread waits for a lock of another


UNWATCHED = {}


class Thread:
    """One thread of an execution: runs `op`, calls `at[n]` before its n-th event."""

    def __init__(self, op, at=UNWATCHED, opcodes=False):
        self.op, self.at, self.opcodes = op, at, opcodes
        self.n = 0
        self.result = None
        self.place = None
        self.left = len(self.at)
        self.finished = threading.Event()

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(ROOT):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self.local

    def local(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            hook = self.at.get(self.n)
            self.n += 1
            if hook is not None:
                self.place = (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                hook()
                self.left -= 1
                if not self.left and not self.opcodes:
                    # nothing further to watch: run at full speed
                    sys.settrace(None)
                    while frame is not None:
                        frame.f_trace = None
                        frame = frame.f_back
                    return None
        return self.local

    def run(self):
        if self.at is not UNWATCHED:
            sys.settrace(self.trace)
        try:
            self.result = ("ok", self.op())
        except Exception as exc:  # noqa: BLE001
            self.result = ("raised", f"{type(exc).__name__}: {exc}")
        finally:
            sys.settrace(None)
            self.finished.set()

    def start(self):
        threading.Thread(target=self.run, daemon=True).start()


def alone(op, opcodes=False):
    """The result and the number of events of an undisturbed run."""
    t = Thread(op, {-1: None}, opcodes)
    t.run()
    return t.result, t.n


def one_switch(a, b, k, opcodes=False):
    """a up to its k-th event, all of b, the rest of a."""
    tb = Thread(b)

    def switch():
        tb.start()
        tb.finished.wait(BLOCKED)

    ta = Thread(a, {k: switch}, opcodes)
    ta.run()
    if ta.place is None:
        return None
    tb.finished.wait()
    return [ta, tb]


def two_switches(a, b, k, j):
    """a up to k, b up to j, the rest of a, the rest of b."""
    go_a, go_b = threading.Event(), threading.Event()

    def back():
        go_a.set()
        go_b.wait()

    tb = Thread(b, {j: back})
    done = tb.finished

    def switch():
        tb.start()
        # b either reaches j or ends
        waited = 0.0
        while not go_a.wait(0.0005 if done.is_set() else 0.01):
            waited += 0.01
            if done.is_set() or waited > BLOCKED:
                break

    ta = Thread(a, {k: switch})
    ta.run()
    go_b.set()
    if ta.place is None:
        return None
    done.wait()
    return [ta, tb]


def nested(a, b, c, k, j):
    """a up to k, b up to j, all of c, the rest of b, the rest of a."""
    tc = Thread(c)

    def third():
        tc.start()
        tc.finished.wait(BLOCKED)

    tb = Thread(b, {j: third})

    def second():
        tb.start()
        tb.finished.wait(BLOCKED * 2)

    ta = Thread(a, {k: second})
    ta.run()
    if ta.place is None:
        return None
    tb.finished.wait()
    if tb.place is None:
        return [ta, tb]
    tc.finished.wait()
    return [ta, tb, tc]
