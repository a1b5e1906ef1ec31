"""C07: unpicklable=False gives plain JSON of the data."""

import itertools

import jsonpickle

from .. import graphs, model, rt
from ..core import Check, Skip, Violation
from ..values import GROUPS, V
from .c05 import DICTS, K

CORE = ["list", "dict", "tuple", "plain", "set"]
SEVEN = ["list", "dict", "plain", "tuple", "slots", "dict_sub", "list_sub"]
SPACE = ({"unpicklable": False}, {"unpicklable": False, "make_refs": False})
NAMES = [n for g, ns in GROUPS.items() if g not in ("opaque", "null_stored", "ref", "enum") for n in ns]
# the only tags that may occur: binary data, classes
ALLOWED = {"py/b64", "py/b85", "py/bytea", "py/type"}


def tags_in(node):
    if isinstance(node, model.Pairs):
        for k, v in node:
            if k.startswith("py/"):
                yield k
            yield from tags_in(v)
    elif isinstance(node, list):
        for v in node:
            yield from tags_in(v)


class C07(Check):
    id = "C07"
    technique = "exhaustive enumeration of object graphs, output compared with an independent reference encoder"
    rule = "every object graph of the bounded size with and without make_refs; a state is a distinct text"

    @property
    def bounds(self):
        return {"all kinds, objects": 2, "five and seven kinds, objects": 3, "list/dict/plain, objects": 4 if self.thorough else 3,
                "values": "every value in every context, all pairs"}

    def cases(self):
        two = rt.arities(2)
        kinds = [k for k in graphs.KINDS if k not in ("deque", "newargs", "newargs_ex")]
        for i in range(len(SPACE)):
            for c in rt.CONTEXTS:
                for n in NAMES:
                    yield ("ctx", i, c, n)
            for d in DICTS:
                for k in K:
                    yield ("key", i, d, k)
            for a, b in itertools.product(NAMES, repeat=2):
                yield ("pair", i, a, b)
            for t in graphs.terms(kinds, 2, (0, 1), two):
                yield ("g", i, t)
            for t in graphs.terms(CORE, 3, (0,), two):
                yield ("g", i, t)
            for t in graphs.terms(SEVEN, 3, (), two):
                yield ("g", i, t)
            for n in range(1, 60):
                for k in ("list", "dict", "plain", "slots"):
                    yield ("spine", i, k, n)
            for n in range(1, 26):
                yield ("wide", i, n)
            if self.thorough:
                for t in graphs.terms(["list", "dict", "plain"], 4, (), two):
                    yield ("g", i, t)

    def value(self, case):
        kind = case[0]
        if kind == "ctx":
            return rt.CONTEXTS[case[2]](V[case[3]])
        if kind == "key":
            s = [1]
            return [DICTS[case[2]]({"a": s, K[case[3]](): [s], "z": s}), s]
        if kind == "pair":
            a, b = V[case[2]](), V[case[3]]()
            return [a, b, (b, a), {"a": a, "b": b}]
        if kind == "spine":
            # nested objects, the innermost refers to the outermost and the middle one
            k0 = graphs.KINDS[case[2]]
            objs = [k0.shell() for _ in range(case[3])]
            for a, b in zip(objs, objs[1:]):
                k0.fill(a, [b])
            k0.fill(objs[-1], [objs[0], objs[len(objs) // 2]])
            return objs[0]
        if kind == "wide":
            # every level is used twice: the text doubles, the objects do not
            x = [7]
            for _ in range(min(case[2], 10)):
                x = {"a": x, "b": [x]}
            return [x] + [(x,)] * (case[2] // 10)
        x = graphs.build(case[2], [7, "s"])
        s = [1]
        return [x, s, s, x]

    def run_case(self, case):
        x = self.value(case)
        opts = SPACE[case[1]]
        try:
            want = model.Model(**opts).encode(x)
        except model.Unmodelled:
            raise Skip from None
        text = jsonpickle.encode(x, **opts)
        self.step()
        self.state(text)
        got = model.parse(text)
        if not model.same(want, got):
            raise Violation(f"with options {opts}\n  expected {model.show(want)[:500]}\n  written  {text[:500]}")
        extra = set(tags_in(got)) - ALLOWED
        if extra and "str_" not in str(case) and "tag_" not in str(case):
            raise Violation(f"tags {extra} in {text[:500]}")


CHECK = C07
