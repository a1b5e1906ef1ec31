"""C08: make_refs=False writes shared objects out in full."""

import collections
import itertools

import jsonpickle

from .. import graphs, model, rt, zoo
from ..core import Check, Violation
from ..snap import Snapper, first_difference
from ..values import GROUPS, V
from .c05 import DICTS, K

CORE = ["list", "dict", "tuple", "plain", "set"]
TEN = ["list", "dict", "plain", "tuple", "slots", "dict_sub", "getset", "reduced", "deque", "handled"]
NAMES = [n for g, ns in GROUPS.items() if g not in ("opaque", "null_stored") for n in ns]
SPACE = ({"make_refs": False}, {"make_refs": False, "keys": True}, {"make_refs": False, "use_base85": True})


FACTORIES = {"function": zoo.make_plain, "class": zoo.Plain, "builtin": list, "instance": zoo.Maker()}
LAYOUTS = {
    "list": lambda a, b: [a, b],
    "dict": lambda a, b: {"a": a, "b": [b]},
    "inside": lambda a, b: [a, [a.setdefault("x", b)], b],
    "attr": lambda a, b: build_plain(a, b),
    "same": lambda a, b: [a, a, {"k": a}],
}


def build_plain(a, b):
    o = zoo.Plain()
    o.a, o.b = a, b
    return o


def tree(x):
    """The graph unfolded: every occurrence in full, no identities."""
    return Snapper(identity=False, ordered=False).go(x)


class C08(Check):
    id = "C08"
    technique = "exhaustive enumeration of object graphs; text against a reference encoder, decoded tree against the original"
    rule = "every object graph of the bounded size; a state is a distinct encoded text"

    @property
    def bounds(self):
        return {"all kinds, objects": 2, "five and ten kinds, objects": 3, "list/dict/plain, objects": 4 if self.thorough else 3,
                "values": "every value in every context, all pairs"}

    def cases(self):
        two = rt.arities(2)
        for i in range(len(SPACE)):
            for c in rt.CONTEXTS:
                for n in NAMES:
                    yield ("ctx", i, c, n)
            for t in graphs.terms(list(graphs.KINDS), 2, (0, 1), two):
                yield ("g", i, t)
        for d in DICTS:
            for k in K:
                yield ("key", 1, d, k)
        for a, b in itertools.product(NAMES, repeat=2):
            yield ("pair", 0, a, b)
        for t in graphs.terms(CORE, 3, (0,), two):
            yield ("g", 0, t)
        for t in graphs.terms(TEN, 3, (), two):
            yield ("g", 0, t)
        for t in graphs.terms(["dict", "plain", "dict_sub"], 3, (0,), two):
            yield ("g", 1, t)
        for n in range(1, 40):
            for k in ("list", "dict", "plain", "slots", "dict_sub", "deque", "getset", "error"):
                yield ("spine", 0, k, n)
        for n in range(1, 13):
            yield ("wide", 0, n)
        for i in range(len(SPACE)):
            for f, g, lay in itertools.product(FACTORIES, FACTORIES, LAYOUTS):
                yield ("factory", i, f, g, lay)
        if self.thorough:
            for t in graphs.terms(["list", "dict", "plain"], 4, (), two):
                yield ("g", 0, t)
            for t in graphs.terms(list(graphs.KINDS), 3, (), rt.arities(1)):
                yield ("g", 0, t)

    def value(self, case):
        kind = case[0]
        if kind == "ctx":
            return rt.CONTEXTS[case[2]](V[case[3]]), False
        if kind == "key":
            s = [1]
            k = K[case[3]]()
            return [DICTS[case[2]]({"a": s, k: [s], "z": s}), s, k, k], False
        if kind == "pair":
            a, b = V[case[2]](), V[case[3]]()
            return [a, b, (b, a), {"a": a, "b": b}], False
        if kind == "spine":
            k0 = graphs.KINDS[case[2]]
            n = max(k0.arities)
            objs = [k0.shell() for _ in range(case[3])]
            for a, b in zip(objs, objs[1:]):
                k0.fill(a, [b, 0, 0][:n])
            k0.fill(objs[-1], [objs[0], objs[len(objs) // 2]][:n])
            return objs[0], True
        if kind == "wide":
            x = [7]
            for i in range(case[2]):
                x = {"a": x, "b": [x]} if i % 2 else (x, [x])
            return x, False
        x = graphs.build(case[2], [7, "s"])
        s = [1]
        return [x, s, s, x], graphs.is_cyclic(case[2])

    def run_factory(self, i, f, g, lay):
        a, b = collections.defaultdict(FACTORIES[f], k=[1]), collections.defaultdict(FACTORIES[g], j=2)
        text = jsonpickle.encode(LAYOUTS[lay](a, b), **SPACE[i])
        self.step()
        self.state(text)
        if has_refs(model.parse(text)):
            raise Violation(f"references in {text[:500]}")
        back = jsonpickle.decode(text, **rt.dec_opts(SPACE[i]))
        self.step()
        want, got = ([(list(d), tree(d["new"]), d.pop("new") is None) for d in defaults(x)] for x in (LAYOUTS[lay](a, b), back))
        if want != got:
            raise Violation(f"default dictionaries {got} instead of {want}: {text[:500]}")

    def run_case(self, case):
        if case[0] == "factory":
            return self.run_factory(*case[1:])
        opts = SPACE[case[1]]
        x, cyclic = self.value(case)
        text = jsonpickle.encode(x, **opts)
        self.step()
        self.state(text)
        got = model.parse(text)
        if has_refs(got):
            raise Violation(f"references in {text[:500]}")
        try:
            want = model.Model(**opts).encode(x)
        except model.Unmodelled:
            want = None
        if want is not None and not model.same(want, got):
            raise Violation(f"expected {model.show(want)[:500]}\n  written  {text[:500]}")
        if not cyclic and "method" not in case:  # methods are left out of dictionaries
            back = jsonpickle.decode(text, **rt.dec_opts(opts))
            self.step()
            a, b = tree(x), tree(back)
            if a != b:
                raise Violation(f"{first_difference(a, b)}\n  options {opts}\n  text {text[:500]}")


def defaults(x):
    found = []
    if isinstance(x, collections.defaultdict):
        found.append(x)
    children = x.values() if isinstance(x, dict) else x if isinstance(x, list) else vars(x).values() if hasattr(x, "__dict__") else ()
    for c in list(children):
        found += defaults(c)
    return found


def has_refs(node):
    if isinstance(node, model.Pairs):
        return any((k == "py/id" and isinstance(v, int)) or has_refs(v) for k, v in node)
    return isinstance(node, list) and any(map(has_refs, node))


CHECK = C08
