"""C12: fail_safe replaces only what failed."""

import collections
import copy
import itertools

import jsonpickle

from .. import fails, graphs, rt, zoo
from ..core import Check, Skip, Violation
from ..fails import Fault
from ..graphs import KINDS, Kind
from ..snap import first_difference, snap
from ..values import GROUPS, V

MODE = {}


def add(name, cls, fill):
    def shell():
        if MODE["real"]:
            return cls()
        return copy.deepcopy(MODE["text"])

    def fill_(o, cs):
        if MODE["real"]:
            fill(o, cs)

    KINDS["f_" + name] = Kind("f_" + name, (0, 1, 2), shell=shell, fill=fill_, hashable=name not in ("List", "Dict"))


for _n, (_c, _f) in fails.CLASSES.items():
    add(_n, _c, _f)
FAILING = ["f_" + n for n in fails.CLASSES]
LATE = ["f_Late", "f_Items", "f_Args", "f_Iterator", "f_List", "f_Dict"]
GOOD = ["list", "dict", "tuple", "set", "plain", "slots", "dict_sub", "list_sub", "reduced", "getset", "newargs", "handled",
        "odict", "error", "frozen"]
# the kinds whose hooks and attributes take part with unpicklable=False
WITHOUT_TAGS = {"f_GetState", "f_Handled", "f_Late", "f_Iterator", "f_List", "f_Dict", "list", "dict", "tuple", "set", "plain",
                "slots", "getset", "handled", "odict", "frozen"}


class Custom(RuntimeError):
    def __init__(self, *args):
        super().__init__(*args)
        self.extra = [1]


EXCEPTIONS = [fails.Boom, ValueError, KeyError, IndexError, RuntimeError, Custom, AssertionError, NotImplementedError,
              ZeroDivisionError, OSError, LookupError, UserWarning, RecursionError, MemoryError, ImportError, EOFError]
BASES = [KeyboardInterrupt, SystemExit]
RESULTS = {
    "str": "<failed>",
    "none": None,
    "int": 5,
    "false": False,
    "estr": "",
    "list": [1, [2, []], {"a": 1}],
    "elist": [],
    "dict": {"error": {"text": ["x"]}, "n": None},
    "edict": {},
}
SCALARS = ("str", "none", "int", "false", "estr")
OPTIONS = [
    {},
    {"keys": True},
    {"unpicklable": False},
    {"make_refs": False},
    {"use_base85": True, "warn": True},
    {"max_depth": 3},
    {"keys": True, "make_refs": False},
    {"numeric_keys": True},
    {"indent": 1},
]


def occurrences(term):
    """How often every object of the term is met."""
    count = collections.Counter()
    kinds = []

    def walk(t):
        if t[0] == "r":
            count[t[1]] += 1
        elif t[0] != "v":
            count[len(kinds)] += 1
            kinds.append(t[0])
            for c in t[1]:
                walk(c)

    walk(term)
    return kinds, count


class C12(Check):
    id = "C12"
    technique = "exhaustive enumeration of graphs with failing objects at every position; the reference is the graph with those objects replaced"
    rule = "every graph in which at least one object fails, early or late, in every hook; distinct texts count as distinct"

    @property
    def bounds(self):
        return {"objects": 3, "failing kinds": len(FAILING), "objects, container kinds": 4 if self.thorough else "4 with one failing kind",
                "exceptions": len(EXCEPTIONS) + len(BASES), "results": len(RESULTS), "options": len(OPTIONS)}

    def failing_terms(self, kinds, failing, nodes, leaves, ar):
        for t in graphs.terms(kinds + failing, nodes, leaves, {**rt.arities(2), "set": (0, 1), **{k: ar for k in failing}}):
            if any(k in failing for k in occurrences(t)[0]):
                yield t

    def cases(self):
        # every kind of failure next to every kind of object
        for f in FAILING:
            for t in self.failing_terms(GOOD, [f], 2, (0,), (0, 1, 2)):
                for o in range(len(OPTIONS)):
                    yield ("g", o, 0, "str", t)
                for r in RESULTS:
                    yield ("g", 0, 0, r, t)
        for f in FAILING:
            for t in self.failing_terms(["list", "dict", "plain"], [f], 3, (), (0, 1, 2)):
                yield ("g", 0, 0, "str", t)
                yield ("g", 2, 0, "str", t)
                yield ("g", 3, 0, "str", t)
                yield ("g", 0, 0, "dict", t)
        for g in GOOD:
            for t in self.failing_terms(["list", g], ["f_Late", "f_Items"], 3, (), (0, 1)):
                yield ("g", 0, 0, "str", t)
        for f, g in itertools.combinations(LATE, 2):
            for t in self.failing_terms(["list", "plain"], [f, g], 3, (), (1,)):
                yield ("g", 0, 0, "none", t)
        ts = ["f_Late", "f_GetState"] if self.thorough else ["f_Late"]
        for t in self.failing_terms(["list", "plain"], ts, 4, (), (1,)):
            yield ("g", 0, 0, "str", t)
        # every exception
        for f in FAILING:
            for t in self.failing_terms(["list", "slots", "dict_sub", "reduced", "getset", "handled"], [f], 2, (0,), (0, 1)):
                for e in range(1, len(EXCEPTIONS)):
                    yield ("g", 0, e, "str", t)
                for e in range(len(BASES)):
                    for o in range(4):
                        yield ("base", o, e, t)
        # failing objects as keys, as values next to every value, in properties
        for o in (1, 6):
            for n in range(4):
                yield ("key", o, n)
        for c in rt.CONTEXTS:
            for n in [n for g, ns in GROUPS.items() if g != "opaque" for n in ns]:
                for o in (0, 1, 2, 3):
                    yield ("none", o, c, n)
                yield ("beside", 0, c, n)
        for t in graphs.terms([k for k in KINDS if not k.startswith("f_")], 2, (0,), rt.arities(2)):
            for o in (0, 1, 2, 3, 5):
                yield ("clean", o, t)
        for n in range(3):
            yield ("property", n)

    def callback(self, result):
        got = []

        def cb(e):
            got.append(e)
            return copy.deepcopy(result)

        return got, cb

    def run_case(self, case):
        return getattr(self, "case_" + case[0])(*case[1:])

    def both(self, term, result, wrap):
        MODE.update(real=True, text=result)
        x = wrap(graphs.build(term, [7]))
        MODE.update(real=False)
        return x, wrap(graphs.build(term, [7]))

    def case_g(self, o, e, r, term):
        opts, result = OPTIONS[o], RESULTS[r]
        kinds, count = occurrences(term)
        if r not in SCALARS and any(n > 1 and kinds[i].startswith(("f_", "tuple", "set")) for i, n in count.items()):
            raise Skip  # written out twice
        if o == 2 and not (set(kinds) <= WITHOUT_TAGS):
            raise Skip
        if opts.get("unpicklable") is False or opts.get("make_refs") is False:
            if graphs.is_cyclic(term):
                raise Skip  # what stands for a cycle is inside of the failing object
        if "f_Dict" in kinds and "keys" in opts or "max_depth" in opts and set(kinds) & {"f_List", "f_Dict"}:
            raise Skip  # such a key is no problem, and repr would fail in its own way
        x, ideal = self.both(term, result, wrap if r in SCALARS else wrap_once)
        Fault.exc = EXCEPTIONS[e]
        Fault.raised.clear()
        got, cb = self.callback(result)
        text = jsonpickle.encode(x, fail_safe=cb, **opts)
        self.step()
        self.state((o, text))
        if "max_depth" in opts and mask(text) != text:
            raise Skip  # the limit was reached before the failing object
        raised = Fault.raised
        if len(kinds) > 1 or kinds[0].startswith("f_"):
            if not got:
                raise Violation(f"nothing failed: {text}")
        if [id(a) for a in got] != [id(a) for a in raised if a in got] or len(set(map(id, got))) != len(got):
            raise Violation(f"the callback got {got}, raised were {raised}")
        if r in SCALARS:
            want = jsonpickle.encode(ideal, **opts)
            if mask(text) != mask(want):
                raise Violation(f"with {opts}\n  encoded as {text}\n  expected   {want}")
        else:
            if not graphs.closable(term):
                raise Skip
            a, b = snap(jsonpickle.decode(text)), snap(ideal)
            if a != b:
                raise Violation(f"{first_difference(b, a)}\n  text {text}")

    def case_base(self, o, e, term):
        kinds = set(occurrences(term)[0])
        if o == 2 and not kinds <= WITHOUT_TAGS or o == 1 and "f_Dict" in kinds:
            raise Skip
        MODE.update(real=True)
        x = wrap(graphs.build(term, [7]))
        Fault.exc = BASES[e]
        Fault.raised.clear()
        got, cb = self.callback("s")
        self.step()
        try:
            text = jsonpickle.encode(x, fail_safe=cb, **OPTIONS[o])
        except BASES[e] as err:
            self.state(repr(err))
            if err is not Fault.raised[-1] or got:
                raise Violation(f"{err!r} instead of {Fault.raised}, callback {got}") from None
        else:
            raise Violation(f"{BASES[e].__name__} was swallowed: {text}")

    def case_key(self, o, n):
        Fault.exc = fails.Boom
        Fault.raised.clear()
        got, cb = self.callback("s")
        s = [1]
        good = zoo.Tagged("t")

        def make(k):
            return [[{k: s, "a": s}, s], [{"a": s, k: good, good: s}, good, s], [{(1, k): s}, s], {k: {k: [s]}, "z": s}][n]

        text = jsonpickle.encode(make(fails.GetState()), fail_safe=cb, **OPTIONS[o])
        self.step(2)
        self.state(text)
        refs = "make_refs" not in OPTIONS[o]
        a = snap(jsonpickle.decode(text, keys=True), identity=refs, ordered=False)
        b = snap(make("s"), identity=refs, ordered=False)
        if a != b:
            raise Violation(f"{first_difference(b, a)}\n  text {text}")

    def case_none(self, o, c, n):
        x = rt.CONTEXTS[c](V[n])
        got, cb = self.callback("s")
        want = jsonpickle.encode(x, **OPTIONS[o])
        # an iterator is used up by the first call
        x = rt.CONTEXTS[c](V[n])
        text = jsonpickle.encode(x, fail_safe=cb, **OPTIONS[o])
        self.step(2)
        self.state((o, text))
        if mask(text) != mask(want) or got:
            raise Violation(f"fail_safe alone changed {want}\n  to {text}, callback {got}")

    def case_beside(self, o, c, n):
        Fault.exc = fails.Boom
        got, cb = self.callback("s")
        f = fails.Late()
        f.a, f.b = V[n](), [f, {"a": f}]
        MODE["f"] = f
        x = rt.CONTEXTS[c](V[n])
        text = jsonpickle.encode([f, x, [f], x], fail_safe=cb)
        want = jsonpickle.encode(["s", x, ["s"], x])
        self.step(2)
        self.state(text)
        if "iter" in n or "gen" in n:
            raise Skip
        if mask(text) != mask(want):
            raise Violation(f"encoded as {text}\n  expected   {want}")

    def case_clean(self, o, term):
        x = graphs.build(term, [7])
        got, cb = self.callback("s")
        want = jsonpickle.encode(x, **OPTIONS[o])
        text = jsonpickle.encode(x, fail_safe=cb, **OPTIONS[o])
        self.step(2)
        self.state((o, text))
        if mask(text) != mask(want) or got:
            raise Violation(f"fail_safe alone changed {want}\n  to {text}, callback {got}")

    def case_property(self, n):
        Fault.exc = fails.Boom
        got, cb = self.callback("s")
        s = [1]
        f = fails.WithProperty()
        f.a = [s]
        x = [[f, s, s], {"f": f, "s": s, "t": [s, f]}, [s, f, zoo.Plain(), [f, s]]][n]
        y = [["s", s, s], {"f": "s", "s": s, "t": [s, "s"]}, [s, "s", x[2] if n == 2 else 0, ["s", s]]][n]
        text = jsonpickle.encode(x, fail_safe=cb, include_properties=True)
        self.step()
        self.state(text)
        a, b = snap(jsonpickle.decode(text)), snap(y)
        if a != b:
            raise Violation(f"{first_difference(b, a)}\n  text {text}")


def wrap(x):
    s = [1]
    return [s, x, {"s": s, "x": x}, [s]]


def wrap_once(x):
    s, t = [1], {}
    return [s, x, {"s": s, "t": t}, [s, t]]


def mask(text):
    from .c11 import ADDRESS

    return ADDRESS.sub("", text)


CHECK = C12
