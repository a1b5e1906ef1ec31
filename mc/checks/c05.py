"""C05: with keys=True dictionaries keep arbitrary keys."""

import collections
import itertools

from .. import graphs, rt, zoo
from ..core import Check
from ..values import GROUPS, V
from ..zoo import Tagged

KEYS = {"keys": True}

TAGS = (
    "bytes bytea b64 b85 function id initargs iterator mod newargs newargsex newobj object "
    "property reduce default_factory ref repr seq set state tuple type other"
).split()

K = {}


def key(name, factory):
    assert name not in K
    K[name] = factory


def hashable_values():
    for group in ("null", "bool", "int", "float", "nonfinite", "str", "bytes", "container",
                  "number", "builtin", "datetime", "stdlib", "instance", "enum", "error", "hook",
                  "ref"):
        for n in GROUPS[group]:
            # strings of derived classes are strings
            if n in ("strsub", "enum_str"):
                continue
            try:
                hash(V[n]())
            except TypeError:
                continue
            yield n


for _n in hashable_values():
    key(_n, V[_n])
for _t in TAGS:
    key("tag_" + _t, lambda t="py/" + _t: t)
for _i, _s in enumerate(
    ["json://1", "json://null", "json://{", "json://json://", 'json://json://"a"', "json:/", "JSON://",
     " json://", "json://[1]", 'json://{"py/tuple": [1]}', 'json://{"py/id": 1}', "default_factory",
     "__dict__", "__class__", "1", "1.0", "None", "(1, 2)", "True", "py/", "py/objec", "py/objects"]
):
    key(f"str_{_i}", lambda s=_s: s)
for _i, _t in enumerate(
    [(), (1,), (1, "a"), ((),), ((1, (2,)), None), (b"x", frozenset([1])), (True, 1.5), ("json://1",), ("py/id",)]
):
    key(f"tup_{_i}", lambda t=_t: t)
for _i, _f in enumerate([[1], ["a", (1, 2)], [frozenset([frozenset()])], [None], [b"x"]]):
    key(f"fs_{_i}", lambda f=_f: frozenset(f))
key("tup_obj", lambda: (Tagged("t"), 1))
key("fs_obj", lambda: frozenset([Tagged("t")]))
key("obj_list", lambda: with_attr(Tagged("l"), v=[1, [2]]))
key("obj_keys", lambda: with_attr(Tagged("k"), v={1: "a", (2,): {None: [3]}}))
key("obj_deep", lambda: with_attr(Tagged("d"), v={with_attr(Tagged("e"), v={Tagged("f"): {1: 2}}): 4}))
key("obj_handled", lambda: with_attr(Tagged("h"), v=handled(1, [2])))
key("frozen_hash", lambda: zoo.Frozen(1, "x"))
key("point_hash", lambda: zoo.Point(1, (2, 3)))


def with_attr(o, **kw):
    for n, v in kw.items():
        setattr(o, n, v)
    return o


def handled(a, b):
    o = zoo.Handled()
    o.a, o.b = a, b
    return o


DICTS = {
    "dict": dict,
    "sub": zoo.DictSub,
    "odict": collections.OrderedDict,
    "ddict": lambda d: collections.defaultdict(list, d),
    "subattr": lambda d: with_attr(zoo.DictSub(d), x=[5]),
}
# a representative of every way a key is stored
CORE = ["none", "true", "i0", "i7", "ibig", "f01", "fm0", "nan", "s_empty", "s_a", "b_1", "t_empty", "tup_4",
        "fs_1", "enum_red", "enum_int", "plain_1", "slots_2", "tagged", "obj_list", "obj_keys", "point_hash",
        "dec_1", "dt_utc", "uuid_1", "type_int", "fn_py", "tag_id", "tag_object", "tag_tuple", "str_0",
        "str_4", "str_11", "str_12", "str_16", "handled", "reduce_state", "getset", "frozen_hash"]
# a graph in which one object is used in several roles
ROLES = ["plain", "tagged", "slots", "getset", "reduced", "reduce_state", "handled", "tuple"]


def role(kind, *children):
    a = children[0] if children else 1
    b = children[1] if len(children) > 1 else 2
    if kind == "tuple":
        return (a, b) if children else (Tagged("in"), 2)
    if kind == "reduced":
        return zoo.rebuild(a, b)
    if kind == "handled":
        return handled(a, b)
    cls = {"plain": zoo.Plain, "slots": zoo.Slots, "getset": zoo.GetSet, "reduce_state": zoo.ReduceState}
    o = Tagged("r") if kind == "tagged" else cls[kind]()
    o.a, o.b = a, b
    return o


def shapes(k, other, s, d):
    """k, other: keys; s: a shared list; d: makes the dictionary"""
    return [
        lambda: [d({k: s}), k, s],
        lambda: [k, d({k: s}), s, k],
        lambda: [d({k: k}), s, s],
        lambda: [s, d({k: s, other: k}), other],
        lambda: {"a": d({k: 1, "x": s}), "b": d({k: s, other: [k]})},
        lambda: d({k: d({k: s}), "k": k, "s": s}),
        lambda: d({k: d({other: d({k: s})}), other: s, "z": [k, other]}),
        lambda: (d({(k, other): s, k: (k,)}), k, s),
        lambda: [d({frozenset([other]): s, k: other}), other, s],
        lambda: zoo_holder(d({k: s, "a": 1}), k, s),
    ]


def zoo_holder(*vs):
    o = zoo.Plain()
    o.one, o.two, o.three = vs
    return o


class C05(Check):
    id = "C05"
    technique = "exhaustive enumeration of dictionaries over a key alphabet on the real encoder and decoder"
    rule = (
        "every key of the alphabet in every dictionary kind and context, all pairs of keys, all triples of "
        "representative keys, all sharing shapes; a state is a distinct encoded text"
    )

    @property
    def bounds(self):
        return {"keys": len(K), "dictionary kinds": len(DICTS), "contexts": len(rt.CONTEXTS),
                "keys per dictionary": 4 if self.thorough else 3, "sharing shapes": 10}

    def cases(self):
        for c in rt.CONTEXTS:
            for d in DICTS:
                for k in K:
                    yield ("one", c, d, k)
        for d in DICTS:
            for a, b in itertools.permutations(K if d in ("dict", "sub") else CORE, 2):
                yield ("many", d, (a, b))
        for t in itertools.combinations(CORE, 3):
            yield ("many", "dict", t)
        for k in ROLES:
            for o in ROLES:
                for d in DICTS:
                    for i in range(10):
                        yield ("role", k, o, d, i)
        # string keys of every code point next to another key
        for base in range(0, 0x110000, 0x1000):
            yield ("chars", base)
        for n in range(-40, 40):
            yield ("ints", n)
        # graphs below a key
        for t in graphs.terms(["list", "dict", "plain", "dict_sub"], 2 + self.thorough, (0,), rt.arities(2)):
            for d in ("dict", "sub"):
                yield ("graph", d, t)
        if self.thorough:
            for d in ("sub", "ddict"):
                for t in itertools.permutations(CORE, 3):
                    yield ("many", d, t)
            for t in itertools.combinations(CORE, 4):
                yield ("many", "dict", t)

    def check(self, x):
        rt.same(self, x, KEYS, ordered=False)

    def run_case(self, case):
        getattr(self, "run_" + case[0])(*case[1:])

    def run_one(self, c, d, k):
        self.check(rt.CONTEXTS[c](lambda: DICTS[d]({K[k](): [1]})))

    def run_many(self, d, ks):
        s = [9]
        x = {}
        for i, k in enumerate(ks):
            x[K[k]()] = s if i % 2 else [i]
        x["plain"] = s
        _, back = rt.same(self, [DICTS[d](x), s], KEYS, ordered=False)
        # string keys keep their order
        want = [k for k in x if plain_string(k)]
        got = [k for k in back[0] if plain_string(k)]
        assert want == got, (want, got)

    def run_role(self, k, o, d, i):
        s = [9]
        ko = role(k, s)
        oo = role(o) if o == k else role(o, 3, s)
        try:
            hash(ko), hash(oo)
        except TypeError:
            ko, oo = role(k, 1), role(o, 3, 4)
        self.check(shapes(ko, oo, s, DICTS[d])[i]())

    def run_chars(self, base):
        d = {chr(c): c for c in range(base, base + 0x1000)}
        d[1] = "x"
        self.check(d)
        self.check({("t", k): v for k, v in d.items()})

    def run_ints(self, n):
        self.check({n: [n], n / 8: n, str(n): 3, (n,): 4})
        self.check({2 ** abs(n): 1, -(10 ** abs(n)): 2, 10.0 ** n: 3, b"%d" % n: 4})

    def run_graph(self, d, t):
        # the graph hangs below a key and is referred to by a value as well
        if not graphs.closable(t):
            raise_skip()
        x = graphs.build(t, [7])
        k = Tagged("k")
        k.v = x
        s = [1]
        self.check([DICTS[d]({k: s, "a": 1}), x, s, k])


def raise_skip():
    from ..core import Skip

    raise Skip


def plain_string(k):
    return isinstance(k, str) and not k.startswith("json://") and not k.startswith("py/") and k != "__dict__"


CHECK = C05
