"""C02: shared and cyclic references are preserved."""

from .. import graphs, rt, zoo
from ..core import Check, Skip

CORE = ["list", "dict", "tuple", "plain", "set"]
TEN = ["list", "dict", "plain", "tuple", "slots", "dict_sub", "getset", "reduced", "deque", "handled"]
OPTS = {"": {}, "k": {"keys": True}}


class C02(Check):
    id = "C02"
    rule = (
        "every rooted object graph of the bounded size in canonical depth-first form, wrapped as "
        "[g, s, s, g]; a state is a distinct encoded text"
    )

    @property
    def bounds(self):
        return {
            "all kinds": sorted(graphs.KINDS),
            "all kinds, objects": 2,
            "list/dict/tuple/plain/set, objects": 3,
            "ten kinds, objects": 3,
            "list/plain, objects": 4,
            "list/dict/plain, objects": 4 if self.thorough else 3,
            "ladder length": 130,
        }

    def cases(self):
        two = rt.arities(2)
        for o in OPTS:
            for t in graphs.terms(list(graphs.KINDS), 2, (0,), two):
                yield ("g", o, t)
        for t in graphs.terms(CORE, 3, (0,), two):
            yield ("g", "", t)
        for t in graphs.terms(TEN, 3, (), two):
            yield ("g", "", t)
        for t in graphs.terms(["list", "plain"], 4, (), two):
            yield ("g", "", t)
        for t in graphs.terms(["dict", "slots", "dict_sub"], 3, (0,), two):
            yield ("g", "k", t)
        # wide nodes, so that an object can occur three times in one other
        three = {"list": (3,), "dict": (3,), "plain": (2,)}
        for t in graphs.terms(["list", "dict", "plain"], 3, (), three):
            yield ("g", "", t)
        if self.thorough:
            for t in graphs.terms(["list", "dict", "plain"], 4, (), two):
                yield ("g", "", t)
            for t in graphs.terms(list(graphs.KINDS), 3, (), rt.arities(1)):
                yield ("g", "", t)
            for t in graphs.terms(TEN, 3, (0,), two):
                yield ("g", "k", t)
        # reference numbers with one, two and three digits
        for kind in ("list", "dict", "plain", "slots", "dict_sub", "deque", "reduce_state", "getset"):
            for n in (1, 2, 9, 10, 11, 12, 99, 100, 101, 130):
                for k in range(n):
                    yield ("ladder", kind, n, k)
        for kind in ("list", "dict", "plain"):
            for n in (1, 2, 5, 10, 40):
                for k in range(n):
                    yield ("spine", kind, n, k)

    def run_case(self, case):
        if case[0] == "g":
            _, o, term = case
            if not graphs.closable(term):
                raise Skip
            x = graphs.build(term, [7])
            s = [1]
            rt.same(self, [x, s, s, x], OPTS[o])
        elif case[0] == "ladder":
            _, kind, n, k = case
            k0 = graphs.KINDS[kind]
            objs = []
            for i in range(n):
                o = k0.shell()
                k0.fill(o, [i, i][: max(k0.arities)])
                objs.append(o)
            rt.same(self, [objs, objs[k], {"k": objs[k]}, objs[n - 1 - k]])
        else:
            # a chain of n nested objects whose last one refers back to the k-th
            _, kind, n, k = case
            k0 = graphs.KINDS[kind]
            objs = [k0.shell() for _ in range(n)]
            for i in range(n - 1):
                k0.fill(objs[i], [objs[i + 1]])
            k0.fill(objs[-1], [objs[k], objs[n // 2]])
            rt.same(self, [objs[0], objs[k]])


CHECK = C02
