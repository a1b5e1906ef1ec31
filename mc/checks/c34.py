"""C34: locks, queues, streams and gmpy2 integers."""

import io
import itertools
import json
import os
import queue
import tempfile
import threading

import gmpy2

import jsonpickle
import jsonpickle.ext.gmpy

from .. import zoo
from ..core import Check, Violation

LOCK = type(threading.Lock())
OPTS = [{}, {"keys": True}, {"make_refs": False}, {"warn": True}, {"use_base85": True}, {"fail_safe": repr}, {"indent": 1}, {"numeric_keys": True}]
SIZES = [0, 1, -1, 2**31, -2**31, 2**53 + 1, 2**63, -2**64, 10**18, 10**40, -10**200, 3**2000]
TEXTS = ["", "a", "line\nnext\n", "é€\U0001f600", "\r\n\x00"]


def lock(held=False):
    x = threading.Lock()
    if held:
        x.acquire()
    return x


def filled(maxsize, items):
    q = queue.Queue(maxsize)
    for i in items:
        q.put(i)
    return q


def stringio(text, at):
    s = io.StringIO(text, newline="")
    s.seek(at)
    return s


def bytesio(data, at):
    s = io.BytesIO(data)
    s.seek(at)
    return s


class C34(Check):
    id = "C34"
    technique = "exhaustive enumeration of the values, the places they can be in and their combinations, with the originals watched"
    rule = "every value at every place, every pair and every triple of values with every pattern of sharing, under every option set"

    @property
    def bounds(self):
        return {"values": len(self.makers), "places": len(PLACES), "together": 4 if self.thorough else 3, "options": len(OPTS)}

    def setup(self):
        jsonpickle.ext.gmpy.register_handlers()
        self.file = None

    @property
    def makers(self):
        return MAKERS

    def cases(self):
        for name in MAKERS:
            for place in PLACES:
                for o in range(len(OPTS)):
                    yield ("place", name, place, o)
        names = list(FEW)
        for n in (2, 4 if self.thorough else 3):
            for what in itertools.product(names, repeat=n):
                for pattern in patterns(n):
                    # equal numbers stand for one object, so they need one kind
                    if all(what[i] == what[j] for i in range(n) for j in range(i) if pattern[i] == pattern[j]):
                        for o in range(4):
                            yield ("several", what, pattern, o)
        for name in MAKERS:
            yield ("plain", name)

    def run_case(self, case):
        getattr(self, "run_" + case[0])(*case[1:])

    def run_place(self, name, place, o):
        x = MAKERS[name]()
        before = describe(x)
        s = [1]
        root = [s, PLACES[place][0](x), s]
        opts = OPTS[o]
        if place == "key" and not opts.get("keys"):
            return
        text = jsonpickle.encode(root, **opts)
        self.step()
        self.state((name, place, o))
        if describe(x) != before:
            raise Violation(f"encoding {name} changed it from {before} to {describe(x)}")
        back = jsonpickle.decode(text, keys=opts.get("keys", False))
        self.step()
        if back[0] != [1] or back[2] != [1] or ((back[0] is not back[2]) and opts.get("make_refs", True)):
            raise Violation(f"{name} as {place} with {opts}: the neighbours are {back!r}, text {text}")
        self.check(name, PLACES[place][1](back[1]), x, f"as {place} with {opts}, text {text}")
        again = PLACES[place][1](jsonpickle.decode(text, keys=opts.get("keys", False))[1])
        if again is not None and again is PLACES[place][1](back[1]):
            raise Violation(f"{name}: decoding twice gives one object")
        if describe(x) != before:
            raise Violation(f"decoding {name} changed the original from {before} to {describe(x)}")

    def check(self, name, y, x, where):
        if name.startswith("file"):
            if y is not None:
                raise Violation(f"{name} {where}: decoded as {y!r}")
            return
        if type(y) is not type(x):
            raise Violation(f"{name} {where}: decoded as {y!r}")
        if y is x:
            raise Violation(f"{name} {where}: decoded as the very same object")
        want = ("queue", 0, []) if name.startswith("queue") else describe(x)
        if describe(y) != want:
            raise Violation(f"{name} {where}: decoded as {describe(y)} instead of {want}")
        # it has to work
        if isinstance(y, LOCK):
            if y.locked():
                y.release()
            if not y.acquire(blocking=False) or y.acquire(blocking=False):
                raise Violation(f"{name} {where}: decoded to a lock that does not lock")
        elif isinstance(y, queue.Queue):
            y.put(5)
            if y.get(timeout=1) != 5:
                raise Violation(f"{name} {where}: decoded to a queue that does not work")
            y.task_done()

    def run_several(self, what, pattern, o):
        objs = {}
        for w, p in zip(what, pattern):
            if p not in objs:
                objs[p] = FEW[w]()
        xs = [objs[p] for p in pattern]
        before = [describe(x) for x in xs]
        s = [1]
        root = {"list": [*xs, s], "s": s, "dict": dict(zip("abcd", xs)), "tuple": (xs[0], s)}
        opts = OPTS[o]
        text = jsonpickle.encode(root, **opts)
        back = jsonpickle.decode(text, keys=opts.get("keys", False))
        self.step(2)
        self.state((what, pattern, o))
        if [describe(x) for x in xs] != before:
            raise Violation(f"encoding {what} changed them")
        refs = opts.get("make_refs", True)
        if back["s"] != [1] or back["list"][-1] != [1] or back["tuple"][1] != [1]:
            raise Violation(f"{what} {pattern}: neighbours differ, text {text}")
        if refs and not (back["s"] is back["list"][-1] is back["tuple"][1]):
            raise Violation(f"{what} {pattern}: neighbours are not shared, text {text}")
        ys = back["list"][:-1]
        if not refs:
            for w, y, x in zip(what, ys, xs):
                self.check(w, y, x, f"in {what}, text {text}")
            return
        for i, y in enumerate(ys):
            for j, z in enumerate(ys):
                if y is None:
                    continue
                if (y is z) != (pattern[i] == pattern[j]):
                    raise Violation(f"{what} {pattern}: positions {i} and {j} {'are' if y is z else 'are not'} one object, text {text}")
            if back["dict"]["abcd"[i]] is not y:
                raise Violation(f"{what} {pattern}: the dictionary has another object at {i}, text {text}")
        if back["tuple"][0] is not ys[0]:
            raise Violation(f"{what} {pattern}: the tuple has another object, text {text}")
        done = set()
        for w, p, y, x in zip(what, pattern, ys, xs):
            if p not in done:
                self.check(w, y, x, f"in {what} {pattern}, text {text}")
            done.add(p)

    def run_plain(self, name):
        """With unpicklable=False there is data only, and it terminates."""
        x = MAKERS[name]()
        before = describe(x)
        s = [1]
        text = jsonpickle.encode([s, x, s], unpicklable=False)
        self.step()
        self.state((name, text))
        data = json.loads(text)
        if "py/object" in text or data[0] != [1] or data[2] != [1] or describe(x) != before:
            raise Violation(f"{name} with unpicklable=False: {text}")
        if name.startswith("file") and data[1] is not None:
            raise Violation(f"{name} with unpicklable=False: {text}")


def describe(x):
    if isinstance(x, LOCK):
        return ("lock", x.locked())
    if isinstance(x, queue.Queue):
        return ("queue", x.maxsize, list(x.queue))
    if isinstance(x, (io.StringIO, io.BytesIO)):
        return (type(x).__name__, x.getvalue(), x.tell(), x.closed)
    if isinstance(x, io.IOBase):
        return ("file", x.name, x.closed, x.tell())
    return (type(x).__name__, str(x))


class Files:
    """One scratch file, gone as soon as it is open."""

    def __call__(self, mode, at=0):
        fd, path = tempfile.mkstemp(prefix="c34")
        os.write(fd, b"one\ntwo\nthree\n")
        os.close(fd)
        f = open(path, mode)  # noqa: SIM115
        os.unlink(path)
        f.seek(at)
        return f


FILES = Files()
MAKERS = {"lock free": lock, "lock held": lambda: lock(True), "queue empty": queue.Queue, "queue bounded": lambda: filled(0, []),
          "queue filled": lambda: filled(0, [1, [2]]), "file text": lambda: FILES("r"), "file text moved": lambda: FILES("r", 4),
          "file append": lambda: FILES("a+"), "file update": lambda: FILES("r+", 4)}
for _n in SIZES:
    MAKERS[f"mpz {_n if abs(_n) < 10**20 else len(str(_n))}"] = lambda n=_n: gmpy2.mpz(n)
for _i, _t in enumerate(TEXTS):
    for _at in range(0, len(_t) + 2):
        MAKERS[f"text {_i} {_at}"] = lambda t=_t, at=_at: stringio(t, at)
        MAKERS[f"bytes {_i} {_at}"] = lambda t=_t, at=_at: bytesio(t.encode(), at)
FEW = {n: MAKERS[n] for n in ("lock free", "lock held", "queue filled", "file text", "mpz 1", "mpz 9223372036854775808", "text 1 1", "bytes 2 4")}


def patterns(n):
    """All partitions of n positions, as restricted growth strings."""
    out = [[0]]
    for _ in range(n - 1):
        out = [p + [k] for p in out for k in range(max(p) + 2)]
    return [tuple(p) for p in out]


def with_attr(cls):
    def make(x):
        o = cls()
        o.a = o.b = x
        return o

    return make


PLACES = {
    "item": (lambda x: x, lambda y: y),
    "list": (lambda x: [x], lambda y: y[0]),
    "dict": (lambda x: {"k": x}, lambda y: y["k"]),
    "tuple": (lambda x: (x,), lambda y: y[0]),
    "attr": (with_attr(zoo.Plain), lambda y: y.a),
    "slot": (with_attr(zoo.Slots), lambda y: y.b),
    "list_sub": (lambda x: zoo.ListSub([x]), lambda y: y[0]),
    "dict_sub": (lambda x: zoo.DictSub(k=x), lambda y: y["k"]),
    "nested": (lambda x: [{"a": ([x],)}], lambda y: y[0]["a"][0][0]),
    "state": (with_attr(zoo.GetSet), lambda y: y.a),
    "handled": (with_attr(zoo.Handled), lambda y: y.a),
    "key": (lambda x: {1: x, None: [x]}, lambda y: y[1]),
}


CHECK = C34
