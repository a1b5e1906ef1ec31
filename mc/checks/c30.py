"""C30: encoded text stays in the documented wire format."""

import copyreg
import itertools
import json
import os

import jsonpickle

from .. import graphs, hooks, model, rt, wire
from ..core import Check, Skip, Violation
from ..values import GROUPS, V

from .c05 import CORE as CORE_KEYS
from .c05 import DICTS, K

CORE = ["list", "dict", "tuple", "plain", "set"]
TEN = ["list", "dict", "plain", "tuple", "slots", "dict_sub", "getset", "reduced", "deque", "handled"]
NAMES = [n for g, ns in GROUPS.items() if g not in ("opaque", "null_stored") for n in ns]


CONTEXTS = ["bare", "shared", "attr", "tuple", "state"]
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "wire.json")) as _f:
    GOLDEN = json.load(_f)


def reduce_form(m, x):
    """A reduce tuple is written as it is, iterators as tuples and without trailing nulls."""
    rv = [*x.__reduce_ex__(2), None, None, None, None][:6]
    for i in (3, 4):
        if rv[i] is not None:
            rv[i] = tuple(rv[i])
    fn, args, *rest = rv
    if fn is not copyreg.__newobj__:
        return m.reduce(fn, args, *rest)
    return m.reduce("py/newobj", args, *rest)


def state_form(m, x, spec):
    st, setst, newargs, slots = spec
    out = m.obj(x)
    if newargs.startswith("args:"):
        out.add("py/newargs", m.flat(x.__getnewargs__()))
    elif newargs:
        out.add("py/newargsex", [m.flat(a) for a in x.__getnewargs_ex__()])
    state = None if st == "absent" else x.__getstate__()
    if state:
        out.add("py/state", m.flat(state))
    elif slots == "slots":
        for n in ("a", "b"):
            if hasattr(x, n):
                out.add(n, m.flat(getattr(x, n)))
    else:
        m.members(vars(x), out)
    return out


class C30(Check):
    id = "C30"
    technique = "exhaustive enumeration of object graphs, text compared with an independent reference encoder"
    rule = (
        "every object graph of the bounded size; the text is parsed and compared member by member, in order, with "
        "the reference encoder; a state is a distinct encoded text"
    )
    opts_space = ({}, {"use_base85": True}, {"keys": True})

    @property
    def bounds(self):
        return {"all kinds, objects": 2, "list/dict/tuple/plain/set and ten kinds, objects": 3,
                "values": "all pairs of modelled values; every value in every context"}

    def cases(self):
        two = rt.arities(2)
        for i in range(len(self.opts_space)):
            for c in rt.CONTEXTS:
                for n in NAMES:
                    yield ("ctx", i, c, n)
        for i in (0, 2):
            for d in DICTS:
                for k in K:
                    yield ("key", i, d, k)
            for a, b in itertools.permutations(CORE_KEYS, 2):
                yield ("keys", i, a, b)
        for a, b in itertools.product(NAMES, repeat=2):
            yield ("pair", 0, a, b)
        for t in graphs.terms(list(graphs.KINDS), 2, (0, 1), two):
            yield ("g", 0, t)
        for t in graphs.terms(CORE, 3, (0,), two):
            yield ("g", 0, t)
        for t in graphs.terms(TEN, 3, (), two):
            yield ("g", 0, t)
        for n in GOLDEN:
            for c in CONTEXTS:
                yield ("golden", n, c)
        args = list(hooks.ARGS)
        for f, a, st, setst, items, dit, set_ in itertools.product(("class", "func", "newobj", "static"), args, ["absent", *hooks.STATES], (0, 1),
                                                                   ("none", "two", "zero"), ("none", "two", "zero"), ("none", "setter")):
            yield ("reduce", ("reduce", f, a, st, setst, items, dit, set_))
        new = ["", *[f"args:{a}" for a in args], *[f"ex:{a}" for a in args]]
        for st, setst, n, slots, attrs in itertools.product(["absent", *hooks.STATES], (0, 1), new, ("dict", "slots"), range(4)):
            yield ("state", (st, setst, n, slots), attrs)
        if self.thorough:
            for t in graphs.terms(["list", "dict", "plain"], 4, (), two):
                yield ("g", 0, t)
            for t in graphs.terms(list(graphs.KINDS), 3, (), rt.arities(1)):
                yield ("g", 0, t)

    def value(self, case):
        kind = case[0]
        if kind == "ctx":
            return rt.CONTEXTS[case[2]](V[case[3]])
        if kind == "pair":
            a, b = V[case[2]](), V[case[3]]()
            return [a, b, (b, a), {"a": a, "b": b}]
        if kind == "key":
            k = K[case[3]]()
            s = [1]
            return [DICTS[case[2]]({"a": s, k: [s], "z": 1}), s, k]
        if kind == "keys":
            a, b = K[case[2]](), K[case[3]]()
            return {"x": {a: b, b: a, "s": a}, "y": [a, b]}
        x = graphs.build(case[2], [7, "s"])
        s = [1]
        return [x, s, s, x]

    def run_golden(self, name, context):
        """Values outside of the model: the text is the one written when the table was made."""
        text = jsonpickle.encode(rt.CONTEXTS[context](V[name] if name in V else wire.MORE[name]))
        self.step()
        self.state(text)
        want = GOLDEN[name][context]
        if not model.same(model.parse(want), model.parse(text)):
            raise Violation(f"{name} as {context}\n  expected {want}\n  written  {text}")

    def run_reduce(self, spec):
        cls = hooks.reduce_class(spec)
        s = hooks.SHARED[0] = [7]
        o = object.__new__(cls)
        model.FORM[cls] = reduce_form
        self.compare([o, s, o], {})
        self.compare({"a": s, "o": o}, {})

    def run_state(self, spec, attrs):
        cls = hooks.state_class(spec)
        s = hooks.SHARED[0] = [7]
        o = object.__new__(cls)
        if attrs & 1:
            o.a = 1
        if attrs & 2:
            o.b = s
        model.FORM[cls] = lambda m, x: state_form(m, x, spec)
        self.compare([o, s, o], {})
        self.compare({"a": s, "o": o}, {})

    def run_case(self, case):
        if case[0] in ("golden", "reduce", "state"):
            getattr(self, "run_" + case[0])(*case[1:])
            return
        x = self.value(case)
        self.compare(x, self.opts_space[case[1]])

    def compare(self, x, opts):
        try:
            want = model.Model(**opts).encode(x)
        except model.Unmodelled:
            raise Skip from None
        text = jsonpickle.encode(x, **opts)
        self.step()
        self.state(text)
        got = model.parse(text)
        if not model.same(want, got):
            raise Violation(f"with options {opts}\n  expected {model.show(want)[:500]}\n  written  {text[:500]}")


CHECK = C30
