"""C17: the handler registry acts like a map from classes."""

import datetime
import itertools
import json

import jsonpickle
from jsonpickle import handlers

from .. import registry_zoo as rz
from ..core import Check, Violation
from ..registry_zoo import CLASSES, H1, H2, I3

NAME = {n: f"mc.registry_zoo.{c.__qualname__}" for n, c in CLASSES.items()}




def alphabet(classes, kinds):
    ops = []
    for c in classes:
        for k in kinds:
            ops.append((k, c))
    return ops


KINDS = ["H1", "H1b", "H2", "H2b", "I3", "I3b", "deco", "decob", "handles", "un"]
FULL = alphabet(CLASSES, KINDS) + [("bad", "str"), ("bad", "obj"), ("bad", "none"), ("un", "other")]
MEDIUM = alphabet(["A", "B", "C", "X", "D"], ["H1", "H1b", "H2b", "I3", "un"]) + [("bad", "str")]
SMALL = alphabet(["A", "B", "D"], ["H1", "H1b", "H2b", "un"])
TINY = alphabet(["A", "B"], ["H1", "H2b", "un"])
BAD = {"str": "mc.registry_zoo.A", "obj": rz.A(), "none": None}
HANDLER = {"H1": H1, "H2": H2, "I3": I3}


class Model:
    """exact: class -> handler; base: ordered class -> handler"""

    def __init__(self):
        self.exact = {}
        self.base = {}

    def do(self, op):
        kind, c = op
        if kind == "bad":
            return
        if kind == "un":
            self.exact.pop(c, None)
            self.base.pop(c, None)
            return
        h = {"H1": H1, "H1b": H1, "H2": H2, "H2b": H2, "I3": I3, "I3b": I3, "deco": H1, "decob": H2, "handles": H2}[kind]
        self.exact[c] = h
        if kind.endswith("b"):
            self.base[c] = h

    def lookup(self, c):
        if c in self.exact:
            return self.exact[c]
        for b, h in self.base.items():
            if issubclass(CLASSES[c], CLASSES[b]):
                return h
        return None

    def key(self):
        return (sorted((c, str(h)) for c, h in self.exact.items()), [(c, str(h)) for c, h in self.base.items()])


def perform(op):
    kind, c = op
    if kind == "bad":
        try:
            handlers.register(BAD[c], H1)
        except TypeError:
            return
        raise Violation(f"registering {BAD[c]!r} was accepted")
    if kind == "un":
        handlers.unregister(CLASSES.get(c, rz.Restored))
        return
    cls = CLASSES[c]
    if kind == "handles":
        if H2.handles(cls) is not cls:
            raise Violation("handles does not return the class")
    elif kind.startswith("deco"):
        h = H1 if kind == "deco" else H2
        if handlers.register(cls, base=kind == "decob")(h) is not h:
            raise Violation("the decorator does not return the handler")
    elif kind.endswith("b"):
        handlers.register(cls, HANDLER[kind[:-1]], base=True)
    else:
        handlers.register(cls, HANDLER[kind])


class C17(Check):
    id = "C17"
    technique = "exhaustive enumeration of register/unregister histories against a map model, observed through lookup, encoding and decoding"
    rule = "every sequence of the bounded length; a state is a distinct content of the model registry"

    @property
    def bounds(self):
        return {"classes": len(CLASSES), f"length over {len(FULL)} operations": 2, f"length over {len(MEDIUM)}": 4 if self.thorough else 3,
                f"length over {len(SMALL)}": 5 if self.thorough else 4, f"length over {len(TINY)}": 7 if self.thorough else 6}

    def setup(self):
        self.clean()
        self.plain = {n: self.encode_plain(n) for n in CLASSES}
        self.builtin = handlers.get(datetime.datetime), handlers.get(datetime.date)

    def clean(self):
        for c in CLASSES.values():
            handlers.unregister(c)

    def instance(self, n):
        cls = CLASSES[n]
        if n == "Q":
            return None
        o = cls()
        o.x = [1]
        return o

    def encode_plain(self, n):
        o = self.instance(n)
        return None if o is None else jsonpickle.encode([o, o.x])

    def cases(self):
        yield ("full", ())
        for n in (1, 2):
            for seq in itertools.product(range(len(FULL)), repeat=n):
                yield ("full", seq)
        for seq in itertools.product(range(len(MEDIUM)), repeat=4 if self.thorough else 3):
            yield ("medium", seq)
        for seq in itertools.product(range(len(SMALL)), repeat=5 if self.thorough else 4):
            yield ("small", seq)
        for seq in itertools.product(range(len(TINY)), repeat=7 if self.thorough else 6):
            yield ("tiny", seq)

    def run_case(self, case):
        ops = [{"full": FULL, "medium": MEDIUM, "small": SMALL, "tiny": TINY}[case[0]][i] for i in case[1]]
        model = Model()
        try:
            for op in ops:
                perform(op)
                model.do(op)
            self.step(len(ops))
            self.state(model.key())
            names = CLASSES if case[0] == "full" else ("A", "B", "C", "X", "D", "In", "V") if case[0] != "tiny" else ("A", "B", "C")
            for n in names:
                self.observe(n, model, ops)
            if (handlers.get(datetime.datetime), handlers.get(datetime.date)) != self.builtin:
                raise Violation(f"other registrations changed after {ops}")
        finally:
            self.clean()

    def observe(self, n, model, ops):
        want = model.lookup(n)
        cls = CLASSES[n]
        self.step(2)
        got = handlers.get(cls)
        if got is not want:
            raise Violation(f"handler of {n} is {got} instead of {want} after {ops}")
        marker = object()
        if handlers.get(cls, marker) is not (marker if want is None else want):
            raise Violation(f"handler of {n} with a default is {handlers.get(cls, marker)} instead of {want} after {ops}")
        by_name = handlers.get(NAME[n])
        if by_name is not model.exact.get(n):
            raise Violation(f"handler of the name {NAME[n]} is {by_name} instead of {model.exact.get(n)} after {ops}")
        o = self.instance(n)
        if o is None:
            return
        text = jsonpickle.encode([o, o.x])
        self.step()
        if want is None:
            if text != self.plain[n]:
                raise Violation(f"{n} without a handler is written as {text} after {ops}")
            back = jsonpickle.decode(text)[0]
            if type(back) is not cls:
                raise Violation(f"{n} without a handler is read as {back!r} after {ops}")
            return
        data = json.loads(text)
        expect = [{"py/object": NAME[n], "by": want.name, "x": [1]}, {"py/id": 2}]
        if data != expect:
            raise Violation(f"{n} with {want.name} is written as {text} after {ops}")
        back = jsonpickle.decode(text)
        self.step()
        r = back[0]
        if type(r) is not rz.Restored or r.by != want.name or r.cls != NAME[n] or r.x is not back[1]:
            raise Violation(f"{n} with {want.name} is read as {getattr(r, '__dict__', r)} after {ops}")


CHECK = C17
