"""C13: a failing user hook surfaces and leaves no trace."""

import json

import jsonpickle
from jsonpickle.pickler import Pickler
from jsonpickle.unpickler import Unpickler

from .. import graphs, rt, ticks, zoo
from ..core import Check, Violation
from ..graphs import KINDS, kind
from ..snap import first_difference, snap
from .c11 import ADDRESS


def _new(cls):
    return lambda: object.__new__(cls)


def _attrs(o, cs):
    o.a = o.b = None
    for n, c in zip("ab", cs):
        setattr(o, n, c)


if "t_getset" not in KINDS:
    kind("t_getset", (0, 1, 2), shell=_new(ticks.GetSet), fill=_attrs, hashable=True)
    kind("t_getset_tuple", (1, 2), shell=_new(ticks.GetSetTuple), fill=_attrs, hashable=True)
    kind("t_reduce", (0, 2), shell=_new(ticks.Reduce), fill=_attrs, hashable=True)
    kind("t_reduce_state", (0, 1), shell=_new(ticks.ReduceState), fill=_attrs, hashable=True)
    kind("t_reduce_setter", (1,), shell=_new(ticks.ReduceSetter), fill=_attrs, hashable=True)
    kind("t_newargs", (1, 2), shell=_new(ticks.NewArgs), fill=_attrs, hashable=True)
    kind("t_newargs_ex", (2,), shell=_new(ticks.NewArgsEx), fill=_attrs, hashable=True)
    kind("t_handled", (0, 1, 2), shell=_new(ticks.Handled), fill=_attrs, hashable=True)
    kind("t_base", (1, 2), shell=_new(ticks.Derived), fill=_attrs, hashable=True)
    kind("t_list", (0, 1, 2), shell=ticks.List, fill=lambda o, cs: list.extend(o, cs))
    kind("t_dict", (0, 1, 2), shell=ticks.Dict, fill=lambda o, cs: dict.update(o, zip("ab", cs)))
    kind("t_setattr", (0, 1, 2), shell=ticks.SetAttr, fill=_attrs, hashable=True)
    kind("t_property", (2,), shell=ticks.Property, fill=_attrs, hashable=True)
    kind("t_dynamic", (0, 1), shell=ticks.Dynamic, fill=_attrs, hashable=True)
    kind("t_iter", (0, 1, 2), shell=ticks.Iter, fill=lambda o, cs: o.todo.extend(cs))
    kind("t_hash", (1,), shell=lambda: ticks.HashList(None), fill=lambda o, cs: setattr(o, "v", cs[0]), hashable=True)
    kind("t_key", (1, 2), shell=dict, fill=lambda o, cs: o.update(zip([ticks.Key("k"), (1, ticks.Key("l"))], cs)))

HOOKED = [k for k in KINDS if k.startswith("t_")]
FROM_PARTS = {"t_reduce", "t_newargs", "t_newargs_ex", "t_handled", "t_base", "t_hash", "t_iter", "t_list"}
GOOD = ["list", "dict", "tuple", "set", "plain", "slots", "dict_sub", "list_sub", "reduced", "newargs", "handled", "ddict"]


class Custom(RuntimeError):
    pass


class Base(BaseException):
    pass


EXCEPTIONS = [Custom, ValueError, KeyError, IndexError, OSError, RuntimeError, NotImplementedError, AssertionError,
              ArithmeticError, ImportError, UnicodeError, EOFError, KeyboardInterrupt, SystemExit, Base, GeneratorExit]
# only encoding: a decoder takes an AttributeError as a missing method
ENCODE_ONLY = [AttributeError]
POPTS = [{}, {"unpicklable": False}, {"make_refs": False}, {"keys": True}, {"max_depth": 2}, {"keys": True, "make_refs": False}]


# every place of a document that holds another document
_PLAIN = {"py/type": "mc.zoo.Plain"}
_NONE = {"py/tuple": []}
WRAPS = {
    "iterator": lambda d: {"py/iterator": [d]},
    "iterator after a value": lambda d: {"py/iterator": [[1], d]},
    "generator": lambda d: {"py/object": "types.GeneratorType", "py/iterator": [d]},
    "set": lambda d: {"py/set": [d]},
    "tuple": lambda d: {"py/tuple": [d]},
    "attribute": lambda d: {"py/object": "mc.zoo.Plain", "a": d},
    "state": lambda d: {"py/object": "mc.zoo.Plain", "py/state": {"a": d}},
    "slots state": lambda d: {"py/object": "mc.zoo.Slots", "py/state": {"py/tuple": [None, {"a": d}]}},
    "newargs": lambda d: {"py/object": "mc.checks.c13.Taker", "py/newargs": [d]},
    "newargsex positional": lambda d: {"py/object": "mc.checks.c13.Taker", "py/newargsex": [[d], {}]},
    "newargsex named": lambda d: {"py/object": "mc.checks.c13.Taker", "py/newargsex": [[], {"v": d}]},
    "initargs": lambda d: {"py/object": "mc.checks.c13.Taker", "py/initargs": [d]},
    "reduce arguments": lambda d: {"py/reduce": [{"py/type": "mc.checks.c13.Taker"}, {"py/tuple": [d]}]},
    "reduce state": lambda d: {"py/reduce": [_PLAIN, _NONE, {"a": d}]},
    "reduce list items": lambda d: {"py/reduce": [{"py/type": "builtins.list"}, _NONE, None, [d]]},
    "reduce dict items": lambda d: {"py/reduce": [{"py/type": "builtins.dict"}, _NONE, None, None, [{"py/tuple": ["k", d]}]]},
    "reduce of no callable": lambda d: {"py/reduce": [7, _NONE, {"a": d}]},
    "unknown class": lambda d: {"py/object": "no.such.Class", "a": d},
}
HASHED = {"set"}
ITERATORS = {"iterator", "iterator after a value", "generator"}


class Taker:
    def __new__(cls, *args, **kwargs):
        o = object.__new__(cls)
        o.taken = [args, kwargs]
        return o

    def __init__(self, *args, **kwargs):
        pass


def has_cycle(term):
    return graphs.is_cyclic(term)


def probe():
    s = [1]
    p = zoo.Plain()
    p.a, p.b, p.me = s, {"s": s}, p
    return [p, s, zoo.rebuild(s, 1), p, {"deep": [[{"x": [p]}]]}]


class C13(Check):
    id = "C13"
    technique = "enumeration of every hook invocation as the failing point over all small graphs, differential against undisturbed runs"
    rule = "every graph with at least one hooked object and every invocation of a hook in it as the failing point"
    bounds = {"objects": "2 (3 for lists and hooked kinds)", "hooked kinds": len(HOOKED), "exceptions": len(EXCEPTIONS) + 1,
              "encoder options": len(POPTS), "places in a document": len(WRAPS)}
    assumptions = ("TypeError, and AttributeError while decoding, are taken as an unsupported protocol step by design",
                   "a KeyError from attribute assignment is retried by design")

    def setup(self):
        self.points = 0
        self.want_text = {}
        self.want_probe = json.dumps(Pickler().flatten(probe()))
        self.want_snap = snap(jsonpickle.decode(self.want_probe))

    def extra_coverage(self):
        return {"fault_points": self.points}

    def cases(self):
        for h in HOOKED:
            for t in graphs.terms(GOOD + [h], 2, (0,), {**rt.arities(2), "set": (0, 1), h: KINDS[h].arities}):
                if "'t_" in str(t):
                    for o in range(len(POPTS)):
                        yield ("g", o, 0, t)
            few = ["list", "dict", "tuple", "set", "slots", "reduced", "handled"]
            for t in graphs.terms((GOOD if self.thorough else few) + [h], 2, (0,), {**rt.arities(2), "set": (0, 1), h: KINDS[h].arities}):
                if "'t_" in str(t):
                    for e in range(1, len(EXCEPTIONS) + len(ENCODE_ONLY)):
                        yield ("g", 0, e, t)
        for h in HOOKED:
            for t in graphs.terms(["list", h], 3, (), {**rt.arities(2), h: KINDS[h].arities}):
                if "'t_" in str(t):
                    yield ("g", 0, 0, t)
        for i, h in enumerate(HOOKED):
            for g in HOOKED[i + 1:]:
                for t in graphs.terms([g, h], 3 if self.thorough else 2, (0,), {k: KINDS[k].arities for k in (g, h)}):
                    for o in (0, 3):
                        yield ("g", o, 0, t)

        for h in HOOKED:
            for n in KINDS[h].arities:
                for w in WRAPS:
                    if KINDS[h].hashable or w not in HASHED:
                        for e in range(len(EXCEPTIONS)):
                            yield ("w", w, e, (h, n))

    def run_case(self, case):
        if case[0] == "w":
            return self.wrapped(*case[1:])
        _, o, e, term = case
        opts = POPTS[o]
        exc = (EXCEPTIONS + ENCODE_ONLY)[e]
        x = graphs.build(term, [7])
        s = [1]
        x = [s, x, {"s": s, "x": x}]
        before = snap(x)
        p = Pickler(**opts)
        text, err, names = ticks.run(lambda: ADDRESS.sub("", json.dumps(p.flatten(x))))
        self.step()
        self.state((o, text))
        n = len(names)
        for k in range(1, n + 1):
            if exc is AttributeError and names[k - 1] == "getattr":
                continue
            self.encode_fault(x, before, p, opts, k, exc, names, text)
        if exc in ENCODE_ONLY or "unpicklable" in opts or "max_depth" in opts:
            return
        if any(k in str(term) for k in FROM_PARTS) and has_cycle(term):
            return
        self.decode_faults(text, {"keys": True} if "keys" in opts else {}, exc)

    def encode_fault(self, x, before, p, opts, k, exc, names, text):
        self.points += 1
        value, err, got = ticks.run(lambda: p.flatten(x), k, exc)
        where = f"failing point {k} ({names[k - 1]}) with {exc.__name__}, options {opts}"
        if err is None or err is not ticks.Ticks.raised:
            raise Violation(f"{where}: {err!r} instead of {ticks.Ticks.raised!r}, result {value!r}")
        after = snap(x)
        if after != before:
            raise Violation(f"{where}: the value changed: {first_difference(before, after)}")
        again, err, _ = ticks.run(lambda: ADDRESS.sub("", json.dumps(p.flatten(x))))
        if again != text:
            raise Violation(f"{where}: later encoded by the same object as {again}\n  instead of {text}")
        value, err, _ = ticks.run(lambda: p.flatten(x), k, exc)
        if not opts:
            other = json.dumps(p.flatten(probe()))
            if other != self.want_probe:
                raise Violation(f"{where}: another value is later encoded as {other}\n  instead of {self.want_probe}")
        # through the module function, which has no object of its own
        value, err, _ = ticks.run(lambda: jsonpickle.encode(x, **opts), k, exc)
        if err is None or err is not ticks.Ticks.raised:
            raise Violation(f"{where}, encode: {err!r} instead of {ticks.Ticks.raised!r}, result {value!r}")
        again, err, _ = ticks.run(lambda: ADDRESS.sub("", jsonpickle.encode(x, **opts)))
        if again != text:
            raise Violation(f"{where}: later encoded as {again}\n  instead of {text}")
        self.step(6)

    def wrapped(self, w, e, shape):
        h, n = shape
        x = KINDS[h].shell()
        KINDS[h].fill(x, [7] * n)
        doc, err, _ = ticks.run(lambda: Pickler(keys=True).flatten(x))
        text = json.dumps([[1], {"x": WRAPS[w](doc)}, {"py/id": 1}])
        self.state(text)
        self.decode_faults(text, {"keys": True}, EXCEPTIONS[e], (lambda v: snap([v[0], list(v[1]["x"]), v[2]])) if w in ITERATORS else snap)

    def decode_faults(self, text, opts, exc, show=snap):
        data = json.loads(text)
        u = Unpickler(**opts)
        first, err, names = ticks.run(lambda: u.restore(data))
        want = show(first)
        self.step()
        for k in range(1, len(names) + 1):
            if exc is KeyError and names[k - 1] in ("setattr", "set"):
                continue
            self.points += 1
            where = f"decoding, failing point {k} ({names[k - 1]}) with {exc.__name__}, text {text}"
            value, err, _ = ticks.run(lambda: u.restore(data), k, exc)
            if err is None or err is not ticks.Ticks.raised:
                raise Violation(f"{where}: {err!r} instead of {ticks.Ticks.raised!r}, result {value!r}")
            again, err, _ = ticks.run(lambda: u.restore(data))
            if show(again) != want:
                raise Violation(f"{where}: later decoded by the same object differently: {first_difference(want, show(again))}")
            value, err, _ = ticks.run(lambda: u.restore(data), k, exc)
            if snap(u.restore(json.loads(self.want_probe))) != self.want_snap:
                raise Violation(f"{where}: another text is decoded differently by the same object")
            value, err, _ = ticks.run(lambda: jsonpickle.decode(text, **opts), k, exc)
            if err is None or err is not ticks.Ticks.raised:
                raise Violation(f"{where}, decode: {err!r} instead of {ticks.Ticks.raised!r}, result {value!r}")
            again, err, _ = ticks.run(lambda: jsonpickle.decode(text, **opts))
            if show(again) != want:
                raise Violation(f"{where}: later decoded differently: {first_difference(want, show(again))}")
            if data != json.loads(text):
                raise Violation(f"{where}: the data was changed to {data}")
            self.step(6)


CHECK = C13
