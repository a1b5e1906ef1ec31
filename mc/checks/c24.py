"""C24: custom handlers get the right object, data and context."""

import collections
import itertools
import json

import jsonpickle

from .. import graphs
from .. import handler_zoo as zoo
from .. import zoo as zoo_
from ..core import Check, Skip, Violation
from ..snap import first_difference, snap

HANDLED = {c.__name__: c for c in zoo.CLASSES}
VALUES = {"s": zoo.AsString, "n": zoo.AsNull, "5": zoo.AsNumber}
for _name, _cls in HANDLED.items():
    graphs.kind("h_" + _name, (0, 1, 2), make=_cls)
    graphs.FROM_PARTS.add("h_" + _name)
for _name, _cls in VALUES.items():
    graphs.kind("v_" + _name, (0, 1), make=_cls)
    graphs.FROM_PARTS.add("v_" + _name)
PREFIX = zoo.__name__ + "."
CONTEXTS = [{"k": 1}, [], 0, False, "", object(), zoo.Exact]
# what a handler may give back in place of an object of its class
RESULTS = {
    "none": lambda parts: None, "false": lambda parts: False, "zero": lambda parts: 0, "text": lambda parts: "text",
    "empty": lambda parts: "", "number": lambda parts: 2**70, "class": lambda parts: zoo.Exact, "function": lambda parts: len,
    "tuple": lambda parts: (*parts, 1), "frozen": lambda parts: frozenset([1]), "list": lambda parts: [parts], "nolist": lambda parts: [],
    "dict": lambda parts: {"parts": parts}, "nodict": lambda parts: {}, "object": lambda parts: zoo.Exact(parts),
    "same": lambda parts: zoo.Turned(parts), "parts": lambda parts: parts, "bytes": lambda parts: b"x", "iterator": iter,
}
PLACES = ["list", "dict", "attribute", "slot", "tuple", "set", "listsub", "dictsub", "state", "tuplestate", "args", "newargs", "key",
          "deque", "odict", "handled"]
OPTIONS = [{}, {"keys": True}, {"make_refs": False}, {"unpicklable": False}, {"use_base85": True}, {"numeric_keys": True},
           {"max_depth": 30}, {"warn": True}, {"include_properties": False, "handle_readonly": True}, {"indent": 1}]


class C24(Check):
    id = "C24"
    technique = "exhaustive enumeration of object graphs and handler signatures with logging handlers"
    rule = "every graph and signature within the bound; a state is a distinct encoded text"

    @property
    def bounds(self):
        return {"handled kinds": len(HANDLED), "objects": 4, "signatures": len(zoo.FLATTENS) ** 2,
                "contexts": len(CONTEXTS), "option sets": len(OPTIONS)}

    def setup(self):
        zoo.install()

    def cases(self):
        base = ("list", "dict", "plain", "tuple")
        # every handled kind among ordinary objects
        for name in HANDLED:
            kinds = (*base, "h_" + name)
            leaves = [0] if self.thorough else []
            arities = {k: (0, 1, 2) if self.thorough or k[0] == "h" else (1, 2) for k in kinds}
            for t in graphs.terms(kinds, 3, leaves, arities):
                if "h_" in repr(t) and graphs.closable(t):
                    yield ("graph", t, 0 if self.thorough or name in ("Exact", "DictDerived") else 1)
        # two handled kinds at a time
        for a, b in itertools.product(HANDLED, repeat=2):
            kinds = ("list", "h_" + a, "h_" + b) if a != b else ("list", "plain", "h_" + a)
            for t in graphs.terms(kinds, 3, [], {k: (1, 2) if k[0] != "h" else (0, 1, 2) for k in kinds}, root=("list",)):
                if "h_" in repr(t) and graphs.closable(t):
                    yield ("graph", t, 1)
        # larger graphs of one kind
        for t in graphs.terms(("list", "h_Exact", "h_KwChild"), 4, [], {"list": (1, 2, 3) if self.thorough else (1, 2), "h_Exact": (0, 2), "h_KwChild": (0, 1)}, root=("list",)):
            if "h_" in repr(t) and graphs.closable(t):
                yield ("graph", t, 1)
        # handlers that return plain values
        for v in VALUES:
            kinds = ("list", "dict", "h_Exact", "v_" + v)
            for t in graphs.terms(kinds, 4 if self.thorough else 3, [], {"list": (1, 2, 3), "dict": (0, 1), "h_Exact": (1, 2), "v_" + v: (0, 1)}, root=("list",)):
                if "v_" in repr(t) and graphs.closable(t):
                    yield ("value", t)
        for f, r in itertools.product(zoo.FLATTENS, zoo.RESTORES):
            for base_, inst in itertools.product((False, True), repeat=2):
                yield ("signature", f, r, base_, inst)
        for name in HANDLED:
            for where in ("key", "keyinside", "keytwice"):
                yield ("key", name, where)
            yield ("pickler", name)
        for r in RESULTS:
            for a, b in itertools.product(PLACES, repeat=2):
                yield ("turned", r, a, b)
        n = range(len(CONTEXTS))
        for i in itertools.product(n, repeat=3 if self.thorough else 2):
            yield ("reuse", i)

    def run_case(self, case):
        getattr(self, "run_" + case[0])(*case[1:])

    def build(self, t):
        return graphs.build(t, [7])

    def preorder(self, root):
        """Handled objects in the order in which they are first met."""
        seen, out = set(), []

        def walk(x):
            if isinstance(x, (str, int, type(None))) or id(x) in seen and not isinstance(x, tuple):
                return
            seen.add(id(x))
            if type(x).__name__ in HANDLED and type(x) is HANDLED[type(x).__name__]:
                out.append(x)
                for p in x.parts:
                    walk(p)
            elif isinstance(x, dict):
                for v in x.values():
                    walk(v)
            elif isinstance(x, (list, tuple)):
                for v in x:
                    walk(v)
            elif hasattr(x, "__dict__"):
                for v in x.__dict__.values():
                    walk(v)

        walk(root)
        return out

    def stored(self, doc):
        out = []

        def walk(d):
            if isinstance(d, dict):
                if str(d.get("py/object")).startswith(PREFIX):
                    out.append(d)
                for v in d.values():
                    walk(v)
            elif isinstance(d, list):
                for v in d:
                    walk(v)

        walk(doc)
        return out

    def encode(self, value, ctx, opts):
        zoo.LOG.clear()
        text = jsonpickle.encode(value, handler_context=ctx, **opts)
        self.step()
        self.state(text)
        return text, list(zoo.LOG)

    def check_encode(self, value, ctx, opts):
        expected = self.preorder(value)
        text, log = self.encode(value, ctx, opts)
        where = f"options {opts}, context {ctx!r}: {text[:400]}"
        if "HIDDEN" in text:
            raise Violation(f"state of a handled object was written: {where}")
        if [id(e[1]) for e in log] != [id(o) for o in expected]:
            raise Violation(f"handlers were called for {[e[1] for e in log]} instead of {expected}: {where}")
        contexts = {id(e[5]) for e in log}
        if len(contexts) > 1:
            raise Violation(f"the handlers of one call got {len(contexts)} picklers: {where}")
        for event, obj, data, received, handler, _ in log:
            if event != "flatten":
                raise Violation(f"{event} was called: {where}")
            want = {} if opts.get("unpicklable") is False else {"py/object": PREFIX + type(obj).__name__}
            if data != want:
                raise Violation(f"the handler got {data} instead of {want}: {where}")
            self.check_handler(type(obj), handler, where)
            self.check_context(received, ctx, zoo.SIGNATURE[type(obj)][0], where)
        return text

    def check_handler(self, cls, handler, where):
        if handler.signature != zoo.SIGNATURE[cls]:
            raise Violation(f"{cls.__name__} was given to {handler}: {where}")

    def check_context(self, received, ctx, signature, where):
        if ctx is not None and signature in zoo.ACCEPTS:
            if received is not ctx:
                raise Violation(f"the handler ({signature}) got the context {received!r}: {where}")
        elif received is not zoo.ABSENT:
            raise Violation(f"the handler ({signature}) got the context {received!r}: {where}")

    def check_decode(self, value, text, ctx, opts):
        where = f"options {opts}, context {ctx!r}: {text[:400]}"
        zoo.LOG.clear()
        back = jsonpickle.decode(text, handler_context=ctx, keys=opts.get("keys", False))
        self.step()
        log = list(zoo.LOG)
        want = self.stored(json.loads(text))
        if [e[0] for e in log] != ["restore"] * len(want) or [e[1] for e in log] != want:
            raise Violation(f"the handlers got {[e[1] for e in log]} instead of {want}: {where}")
        for _, data, _, received, handler, _ in log:
            cls = HANDLED[data["py/object"].rpartition(".")[2]]
            self.check_handler(cls, handler, where)
            self.check_context(received, ctx, zoo.SIGNATURE[cls][1], where)
        if opts.get("make_refs") is not False:
            a, b = snap(value), snap(back)
            if a != b:
                raise Violation(f"{first_difference(a, b)}: {where}")

    def run_graph(self, t, mode):
        value = self.build(t)
        self.trip(value, None, {})
        self.trip(value, CONTEXTS[0], {"keys": True})
        if mode == 0:
            for opts in OPTIONS[2:]:
                if opts.get("make_refs") is False or opts.get("unpicklable") is False:
                    if graphs.is_cyclic(t):
                        continue
                self.trip(value, CONTEXTS[0], opts)
        # neighbours after the graph
        s = [9]
        self.trip([value, s, {"s": s, "v": value}], None, {})

    def trip(self, value, ctx, opts):
        text = self.check_encode(value, ctx, opts)
        if opts.get("unpicklable") is not False:
            self.check_decode(value, text, ctx, opts)

    def run_value(self, t):
        """Handlers that return a string, a number or nothing: what they flattened is not stored."""
        value = self.build(t)
        s = [9]
        value = [value, s, s]

        def plain(x, memo):
            if id(x) in memo:
                return memo[id(x)]
            if type(x) in VALUES.values():
                return {zoo.AsString: "a string", zoo.AsNull: None, zoo.AsNumber: 5}[type(x)]
            if type(x) is list:
                memo[id(x)] = y = []
                y += [plain(v, memo) for v in x]
            elif type(x) is dict:
                memo[id(x)] = y = {}
                y.update((k, plain(v, memo)) for k, v in x.items())
            elif type(x) is zoo.Exact:
                memo[id(x)] = y = zoo.Exact(())
                y.parts = [plain(p, memo) for p in x.parts]
            else:
                return x
            return y

        text, _ = self.encode(value, None, {})
        back = jsonpickle.decode(text)
        self.step()
        a, b = snap(plain(value, {})), snap(back)
        if a != b:
            raise Violation(f"{first_difference(a, b)}: {text[:400]}")

    def run_signature(self, f, r, base, inst):
        zoo.install({**zoo.DEFAULT, zoo.Exact: (f, r, base, inst), zoo.Kw: (f, r, True, inst)})
        try:
            for ctx in (None, *CONTEXTS):
                x = zoo.Exact([zoo.KwGrandChild([])])
                s = [1]
                for value in (x, [x, s, {"a": s}, x], zoo.KwChild([x, s, x])):
                    self.trip(value, ctx, {})
                    self.trip(value, ctx, {"unpicklable": False})
                # the context of one side only
                text = self.check_encode(x, ctx, {})
                self.check_decode(x, text, None, {})
                text = self.check_encode(x, None, {})
                self.check_decode(x, text, ctx, {})
        finally:
            zoo.install()

    def run_key(self, name, where):
        """Handled objects as dictionary keys."""
        cls = HANDLED[name]
        if cls.__hash__ is None:
            raise Skip
        for ctx in (None, CONTEXTS[0], 0):
            x, y, s = cls([[1]]), cls([]), [2]
            value = {"key": lambda: {"s": s, x: s}, "keyinside": lambda: {"y": y, (x, 1): y}, "keytwice": lambda: [{x: 1}, x, {y: x}, y]}[where]()
            zoo.LOG.clear()
            text = jsonpickle.encode(value, keys=True, handler_context=ctx)
            log = list(zoo.LOG)
            self.step(2)
            self.state(text)
            objs = [x, y] if where != "key" else [x]
            if sorted(id(e[1]) for e in log) != sorted(map(id, objs)):
                raise Violation(f"the handlers were called for {[e[1] for e in log]}: {text}")
            for e in log:
                self.check_context(e[3], ctx, zoo.SIGNATURE[cls][0], text)
            zoo.LOG.clear()
            back = jsonpickle.decode(text, keys=True, handler_context=ctx)
            log = list(zoo.LOG)
            if len(log) != len(objs):
                raise Violation(f"restore was called {len(log)} times: {text}")
            for e in log:
                self.check_context(e[3], ctx, zoo.SIGNATURE[cls][1], text)
            a, b = snap(value), snap(back)
            if a != b:
                raise Violation(f"{first_difference(a, b)}: {text}")

    def place(self, where, x):
        """x inside of something, and how to get it out again."""
        if where == "list":
            return [x], lambda v: v[0]
        if where == "dict":
            return {"x": x}, lambda v: v["x"]
        if where in ("attribute", "slot", "state", "tuplestate", "args", "newargs"):
            o = {"attribute": zoo_.Plain, "slot": zoo_.Slots, "state": zoo_.GetSet, "tuplestate": zoo_.GetSetTuple,
                 "args": zoo_.Reduced, "newargs": zoo_.NewArgs}[where]()
            o.a = x
            return o, lambda v: v.a
        if where == "tuple":
            return (x,), lambda v: v[0]
        if where == "set":
            return {x}, lambda v: next(iter(v))
        if where == "listsub":
            return zoo_.ListSub([x]), lambda v: v[0]
        if where == "dictsub":
            return zoo_.DictSub(x=x), lambda v: v["x"]
        if where == "key":
            return {x: 1}, lambda v: next(iter(v))
        if where == "deque":
            return collections.deque([x]), lambda v: v[0]
        if where == "odict":
            return collections.OrderedDict(x=x), lambda v: v["x"]
        return zoo.Exact([x]), lambda v: v.parts[0]

    def run_turned(self, r, a, b):
        """Both places get the one object that the handler gave back, whatever it is."""
        zoo.TurnedHandler.result = staticmethod(RESULTS[r])
        s = [3]
        x = zoo.Turned([s])
        (va, geta), (vb, getb) = self.place(a, x), self.place(b, x)
        if {a, b} & {"set", "key"} and r in ("list", "nolist", "dict", "nodict", "parts", "tuple"):
            raise Skip  # not hashable
        for keys in (True,) if "key" in (a, b) else (False, True):
            text = jsonpickle.encode([va, vb, s, x], keys=keys)
            self.state(text)
            zoo.LOG.clear()
            back = jsonpickle.decode(text, keys=keys)
            self.step(2)
            calls = sum(e[4] is zoo.TurnedHandler for e in zoo.LOG)
            if calls != 1:
                raise Violation(f"restore was called {calls} times: {text}")
            got = [geta(back[0]), getb(back[1]), back[3]]
            want = RESULTS[r]([back[2]])
            if got[0] is not got[2] or got[1] is not got[2] or back[2] != [3]:
                raise Violation(f"the places have {got!r}: {text}")
            if r == "iterator":
                got[0] = list(got[0])
                want = [back[2]]
            if snap(got[0]) != snap(want):
                raise Violation(f"the places have {got[0]!r} instead of {want!r}: {text}")
            if r in ("tuple", "list", "dict", "object", "same", "parts", "iterator") and snap([got[0], back[2]]) != snap([want, back[2]]):
                raise Violation(f"sharing with the parts was lost: {text}")

    def run_reuse(self, picks):
        """Each call on a reused context has its own handler context."""
        p, u = jsonpickle.Pickler(), jsonpickle.Unpickler()
        p2, u2 = jsonpickle.Pickler(handler_context="old"), jsonpickle.Unpickler(handler_context="old")
        for i in picks:
            ctx = CONTEXTS[i]
            for pickler, unpickler in ((p, u), (p2, u2)):
                x = zoo.Kw([zoo.Hooks([])])
                zoo.LOG.clear()
                text = jsonpickle.encode([x], context=pickler, handler_context=ctx)
                jsonpickle.decode(text, context=unpickler, handler_context=ctx)
                self.step(2)
                if len(zoo.LOG) != 4:
                    raise Violation(f"the handlers were called {len(zoo.LOG)} times: {text}")
                for e in zoo.LOG:
                    if e[3] is not ctx:
                        raise Violation(f"{e[0]} got the context {e[3]!r} instead of {ctx!r} on a reused context")

    def run_pickler(self, name):
        """The classes take the same argument as the functions."""
        cls = HANDLED[name]
        for ctx in (None, *CONTEXTS):
            x = cls([[1], cls([])])
            zoo.LOG.clear()
            data = jsonpickle.Pickler(handler_context=ctx).flatten([x, x])
            self.step(2)
            log = list(zoo.LOG)
            if [id(e[1]) for e in log] != [id(x), id(x.parts[1])]:
                raise Violation(f"the handlers were called for {[e[1] for e in log]}: {data}")
            for e in log:
                self.check_context(e[3], ctx, zoo.SIGNATURE[cls][0], data)
            zoo.LOG.clear()
            back = jsonpickle.Unpickler(handler_context=ctx).restore(data)
            log = list(zoo.LOG)
            if len(log) != 2:
                raise Violation(f"restore was called {len(log)} times: {data}")
            for e in log:
                self.check_context(e[3], ctx, zoo.SIGNATURE[cls][1], data)
            a, b = snap([x, x]), snap(back)
            if a != b:
                raise Violation(f"{first_difference(a, b)}: {data}")


CHECK = C24
