"""C09: max_depth and max_iter bound the output exactly."""

import re

import jsonpickle

from .. import graphs, model, rt, zoo
from ..core import Check, Skip, Violation
from ..values import GROUPS, V

KINDS = ["list", "dict", "tuple", "set", "plain", "slots", "list_sub", "dict_sub"]
NAMES = [n for g, ns in GROUPS.items() if g not in ("opaque", "null_stored", "hook", "error") for n in ns]
SPACE = ({}, {"unpicklable": False}, {"make_refs": False}, {"keys": True}, {"unpicklable": False, "make_refs": False})
SMALL = ["list", "dict", "tuple", "plain"]
ADDRESS = re.compile("0x[0-9a-f]+")


def nest(path, leaf):
    """Objects nested along a path of kinds; each level has a scalar and a container beside the path."""
    x = leaf
    for k in reversed(path):
        if k == "list":
            x = [1, x, [2]]
        elif k == "dict":
            x = {"s": 1, "x": x, "t": {"u": []}}
        elif k == "tuple":
            x = (1, x, (2,))
        elif k == "set":
            try:
                x = {x}
            except TypeError:
                raise Skip from None
        elif k == "plain":
            p = zoo.Plain()
            p.s, p.x, p.t = 1, x, zoo.Plain()
            x = p
        elif k == "slots":
            p = zoo.Slots()
            p.a, p.b = x, [3]
            x = p
        elif k == "list_sub":
            p = zoo.ListSub([x, 1])
            p.attr = [4]
            x = p
        elif k == "dict_sub":
            p = zoo.DictSub(x=x, y=[1])
            p.attr = [4]
            x = p
    return x


def gen(items):
    yield from items


ITEMS = {
    "ints": lambda n, s: list(range(n)),
    "lists": lambda n, s: [[i, s] for i in range(n)],
    "shared": lambda n, s: [s] * n,
    "mixed": lambda n, s: [None, {"a": s}, "x", (1, s), s, 2.5, [s]][:n],
    "iters": lambda n, s: [zoo.CountingIter([i, s, 0]) for i in range(n)],
}


class C09(Check):
    id = "C09"
    technique = "exhaustive enumeration of nested values times limits, text against a reference encoder; counted iterators"
    rule = "every path of container kinds of the bounded depth with every limit, every graph of the bounded size with every limit, every iterator length with every max_iter"

    @property
    def bounds(self):
        return {"path depth": 5 if self.thorough else 4, "max_depth": "0 to two beyond the depth", "graph objects": 3,
                "iterator length": 7, "max_iter": "none and 0 to 8"}

    def cases(self):
        for o in range(len(SPACE)):
            yield from self.paths(o, 3, KINDS)
            yield from self.paths(o, 5 if self.thorough else 4, SMALL, 4)
            for n in NAMES:
                for c in ("bare", "list", "dict", "attr", "tuple", "deep", "slots", "listsub", "dictsub"):
                    for d in range(6):
                        yield ("ctx", o, d, c, n)
            for t in graphs.terms(KINDS, 2, (0,), rt.arities(2)):
                for d in range(4):
                    yield ("g", o, d, t)
            for t in graphs.terms(SMALL, 3, (), rt.arities(2)):
                for d in range(5):
                    yield ("g", o, d, t)
        for o in range(len(SPACE)):
            for kind in ("gen", "iter"):
                for items in ITEMS:
                    for n in range(8):
                        for limit in [None, *range(9)]:
                            for where in ("bare", "list", "dict", "attr", "twice"):
                                yield ("iter", o, limit, kind, items, n, where)

    def paths(self, o, depth, kinds, least=0):
        def rec(p):
            if len(p) >= least:
                for leaf in (0, "s", None, "list", "obj"):
                    for d in range(len(p) + 4):
                        yield ("path", o, d, p, leaf)
            if len(p) < depth:
                for k in kinds:
                    yield from rec((*p, k))

        yield from rec(())

    def run_case(self, case):
        opts = dict(SPACE[case[1]])
        if case[0] == "iter":
            return self.iterators(case, opts)
        if case[0] == "path":
            leaf = {"list": [5], "obj": zoo.Plain()}.get(case[4], case[4])
            x = nest(case[3], leaf)
        elif case[0] == "ctx":
            x = rt.CONTEXTS[case[3]](V[case[4]])
        else:
            x = graphs.build(case[3], [7])
            s = [1]
            x = [x, s, {"k": x}, s]
        limit = case[2]
        try:
            want = model.Model(max_depth=limit, **opts).encode(x)
        except (model.Unmodelled, RecursionError):
            raise Skip from None
        text = jsonpickle.encode(x, max_depth=limit, **opts)
        self.step()
        self.state((limit, ADDRESS.sub("", text)))
        if not model.same(want, model.parse(text)):
            raise Violation(f"max_depth={limit} {opts}\n  expected {model.show(want)[:500]}\n  written  {text[:500]}")
        if case[0] == "path" and limit > len(case[3]) + 1:
            # not reached: as without the option
            plain = jsonpickle.encode(x, **opts)
            self.step()
            if plain != text:
                raise Violation(f"max_depth={limit} is not reached but changes {plain[:400]}\n  to {text[:400]}")

    def iterators(self, case, opts):
        _, _, limit, kind, items, n, where = case
        s = [9]
        values = ITEMS[items](n, s)
        taken = zoo.CountingIter(values)
        it = taken if kind == "iter" else gen(taken)
        p = zoo.Plain()
        x = {"bare": lambda: it, "list": lambda: [it, s, s], "dict": lambda: {"a": it, "s": s, "t": s},
             "attr": lambda: vars(p).update(a=it, s=s, t=s) or p,
             "twice": lambda: [it, zoo.CountingIter([s, 1, 2, 3]), s]}[where]()
        text = jsonpickle.encode(x, max_iter=limit, **opts)
        self.step()
        self.state(("iter", limit, text))
        expect = values if limit is None else values[:limit]
        used = len(expect)
        if taken.taken != used:
            raise Violation(f"{taken.taken} items were consumed, expected {used}: {text[:300]}")
        node = model.parse(text)
        try:
            m = model.Model(**opts)
            want = self.expected(x, it, expect, limit, m)
        except model.Unmodelled:
            raise Skip from None
        if not model.same(want, node):
            raise Violation(f"max_iter={limit} {opts}\n  expected {model.show(want)[:500]}\n  written  {text[:500]}")
        if opts.get("unpicklable", True):
            back = jsonpickle.decode(text, **rt.dec_opts(opts))
            self.step()
            got = {"bare": lambda: back, "list": lambda: back[0], "dict": lambda: back["a"], "attr": lambda: back.a,
                   "twice": lambda: back[0]}[where]()
            if not hasattr(got, "__next__") or len(list(got)) != used:
                raise Violation(f"decoded to {got!r}: {text[:300]}")

    def expected(self, x, it, expect, limit, m):
        def write(m, o, vals, cls):
            out = model.Pairs([("py/object", cls)]) if m.tags else model.Pairs()
            out.add("py/iterator", [m.flat(v) for v in vals])
            return out

        def counting(m, o):
            vals = expect if o is it else (o.items if limit is None else o.items[:limit])
            return write(m, o, vals, "mc.zoo.CountingIter")

        saved = {c: model.FORM.get(c) for c in (zoo.CountingIter, type(gen(())))}
        model.FORM[zoo.CountingIter] = counting
        model.FORM[type(gen(()))] = lambda m, o: write(m, o, expect, "types.GeneratorType")
        try:
            return m.encode(x)
        finally:
            for c, f in saved.items():
                if f is None:
                    del model.FORM[c]
                else:
                    model.FORM[c] = f


CHECK = C09
