"""C29: documents of older versions decode as before."""

import array
import base64
import builtins
import collections
import copy
import datetime
import decimal
import functools
import importlib
import itertools
import json
import re
import uuid

import jsonpickle

from .. import graphs, rt, zoo
from ..core import Check, Skip, Violation
from ..snap import first_difference, snap, special
from ..values import GROUPS, V


@special(type(iter([])))
def _iterator(x, s):
    return ("iterator", s.go(list(copy.copy(x))))


class Init:
    """Takes its contents when it is created."""

    def __init__(self, *args):
        self.args_ = args


class OldMeta:
    def __new__(cls, *args):
        self = super().__new__(cls)
        self.got = args
        return self


PENDING = object()
Z = "mc.zoo."
ME = "mc.checks.c29."
H = "hole"


def o(cls, **kw):
    return {"py/object": cls, **{k.replace("py_", "py/"): v for k, v in kw.items()}}


def tup(*a):
    return {"py/tuple": list(a)}


def typ(n):
    return {"py/type": n}


# documents with holes, by name
FORMS = {
    "list1": [H],
    "list2": [H, H],
    "dict1": {"a": H},
    "dict2": {"b": H, "a": H},
    "tuple": tup(H, H),
    "plain": o(Z + "Plain", a=H, b=H),
    "plain_late": {"a": H, "py/object": Z + "Plain", "b": H},
    "state": o(Z + "Plain", py_state={"a": H, "b": H}),
    "state_attr": o(Z + "Plain", b=H, py_state={"a": H}),
    "getset": o(Z + "GetSet", py_state={"packed": [H, H]}),
    "getset_tuple": o(Z + "GetSetTuple", py_state=tup(H, H)),
    "getset_list": o(Z + "GetSetTuple", py_state=[H, H]),
    "slots": o(Z + "Slots", b=H, a=H),
    "slots_state": o(Z + "Slots", py_state=tup(None, {"a": H, "b": H})),
    "both_state": o(Z + "Mixed", py_state=tup({"z": H}, {"a": H})),
    "newargs": o(Z + "NewArgs", py_newargs=tup(H, H)),
    "newargs_list": o(Z + "NewArgs", py_newargs=[H, H]),
    "newargs_attr": o(Z + "NewArgs", a=H, py_newargs=tup(H)),
    "newargsex": o(Z + "NewArgsEx", py_newargsex=[tup(H), {"b": H}]),
    "initargs": o(ME + "OldMeta", py_initargs=tup(H, H)),
    "initargs_list": o(ME + "OldMeta", py_initargs=[H], x=H),
    "listsub": o(Z + "ListSub", py_seq=[H, H]),
    "listsub_attr": o(Z + "ListSub", attr=H, py_seq=[H]),
    "setsub": o(Z + "SetSub", py_seq=[1, "s"], attr=H),
    "point_seq": o(Z + "Point", py_seq=[H, H]),
    "point_newargs": o(Z + "Point", py_newargs=tup(H, H)),
    "tuplesub": o(Z + "TupleSub", py_newargs=tup(tup(H, H))),
    "dictsub": o(Z + "DictSub", a=H, b=H),
    "dictsub_attr": o(Z + "DictSub", a=H, __dict__={"x": H}),
    "ddict": o("collections.defaultdict", a=H, default_factory=typ("builtins.list"), b=H),
    "ddict_old": {"py/object": "collections.defaultdict", "default_factory": typ("__builtin__.list"), "a": H},
    "ddict_none": o("collections.defaultdict", a=H),
    "iterator": {"py/iterator": [H, H]},
    "reduce2": {"py/reduce": [typ(Z + "WithInit"), tup(H, H)]},
    "reduce_list": {"py/reduce": [typ(Z + "WithInit"), [H, H]]},
    "reduce_state": {"py/reduce": [typ(Z + "ReduceState"), tup(), {"a": H, "b": H}]},
    "reduce_setstate": {"py/reduce": [typ(Z + "ReduceSetState"), tup(), {"s": [H, H]}]},
    "reduce5": {"py/reduce": [typ("collections.OrderedDict"), tup(), None, None, tup(tup("a", H), tup("b", H))]},
    "reduce5_list": {"py/reduce": [typ("collections.OrderedDict"), tup(), None, None, [["a", H]]]},
    "reduce4": {"py/reduce": [typ("collections.deque"), tup(), None, [H, H], None]},
    "reduce4_tuple": {"py/reduce": [typ("collections.deque"), tup(tup(), 5), None, tup(H, H)]},
    "reduce_fn": {"py/reduce": [{"py/function": Z + "rebuild"}, tup(H, H), None, None, None]},
    "newobj": {"py/reduce": [{"py/function": "copyreg.__newobj__"}, tup(typ(Z + "Plain")), {"a": H, "b": H}]},
    "newobj_tag": {"py/reduce": ["py/newobj", tup(typ(Z + "NewArgs"), H), {"a": 0, "b": H}]},
    "reduce_object": {"py/reduce": [typ(Z + "Outer.Inner"), tup(), {"a": H}, None, None, None]},
    "old_error": o("exceptions.ValueError", a=H),
}
LEAF_FORMS = {
    "b64": {"py/b64": "AGE="},
    "b85": {"py/b85": "00{"},
    "bytea": {"py/bytea": {"py/b64": "YQ=="}},
    "set": {"py/set": [1, "s", tup(2)]},
    "type": typ("__builtin__.int"),
    "type_nested": typ(Z + "Outer.Inner"),
    "function": {"py/function": Z + "rebuild"},
    "module": {"py/mod": "json/json"},
    "repr": {"py/repr": "datetime/datetime.timedelta(3)"},
    "enum": {"py/reduce": [typ(Z + "Color"), tup(1)]},
    "uuid": o("uuid.UUID", hex="00000000000000000000000000000007"),
    "regex": o("re.Pattern", pattern="a+"),
    "date": o("datetime.date", __reduce__=[typ("datetime.date"), ["B+ABCA=="]]),
    "empty": o(Z + "Plain"),
}
LEAVES = [1, "s", None]
SMALL = ["uuid"]
CORE = ["list2", "dict1", "tuple", "plain", "state", "getset", "newargs_list", "point_seq", "listsub_attr", "dictsub_attr", "reduce_state", "reduce4", "iterator"]


def holes(doc):
    if isinstance(doc, list):
        return sum(map(holes, doc))
    if isinstance(doc, dict):
        return sum(map(holes, doc.values()))
    return int(doc == H)


HOLES = {n: holes(f) for n, f in FORMS.items()}


def fill(doc, parts):
    if isinstance(doc, list):
        return [fill(d, parts) for d in doc]
    if isinstance(doc, dict):
        return {k: fill(v, parts) for k, v in doc.items()}
    return next(parts) if doc == H else doc


def document(term):
    kind, arg = term
    if kind == "v":
        return LEAVES[arg]
    if kind == "i":
        return {"py/id": arg}
    if kind in LEAF_FORMS:
        return LEAF_FORMS[kind]
    return fill(FORMS[kind], iter([document(t) for t in arg]))


def terms(forms, budget, leaves, ids, small=()):
    """Every document of at most `budget` forms with holes."""

    def child(b):
        for x in leaves:
            yield ("v", x), 0
        for k in ids:
            yield ("i", k), 0
        for n in small:
            yield (n, ()), 0
        if b:
            yield from node(b)

    def node(b):
        for n in forms:
            for cs, used in children(HOLES[n], b - 1):
                yield (n, cs), used + 1

    def children(n, b):
        if n == 0:
            yield (), 0
            return
        for c, used in child(b):
            for rest, more in children(n - 1, b - used):
                yield (c, *rest), used + more

    for t, _ in node(budget):
        yield t


def resolve(name):
    parts = name.split(".")
    if parts[0] in ("__builtin__", "exceptions"):
        parts[0] = "builtins"
    for n in range(len(parts) - 1, 0, -1):
        try:
            x = importlib.import_module(".".join(parts[:n]))
        except ImportError:
            continue
        return functools.reduce(getattr, parts[n:], x)
    raise AssertionError(name)


TAGGED = ("py/seq", "py/state", "py/newargs", "py/newargsex", "py/initargs", "py/object", "py/default_factory", "py/property")


class Reader:
    """The meaning of the wire format, written down once more."""

    def __init__(self, v1):
        self.v1 = v1
        self.objs = []

    def enter(self, obj):
        if obj is not PENDING and any(x is obj for x in self.objs):
            return None
        self.objs.append(obj)
        return len(self.objs) - 1

    def read(self, d):
        if isinstance(d, list):
            out = []
            self.enter(out)
            out.extend([self.read(x) for x in d])
            return out
        if not isinstance(d, dict):
            return d
        for tag in ("tuple", "set", "b64", "b85", "bytea", "id", "iterator", "object", "type", "reduce", "function", "mod", "repr"):
            if "py/" + tag in d:
                return getattr(self, tag)(d["py/" + tag], d)
        out = {}
        if not self.v1:
            self.enter(out)
        for k, v in d.items():
            out[k] = self.read(v)
        return out

    def tuple(self, v, d):
        return tuple([self.read(x) for x in v])

    def set(self, v, d):
        return {self.read(x) for x in v}

    def b64(self, v, d):
        return base64.b64decode(v)

    def b85(self, v, d):
        return base64.b85decode(v)

    def bytea(self, v, d):
        return bytearray(self.read(v))

    def id(self, v, d):
        if v >= len(self.objs) or self.objs[v] is PENDING:
            raise Skip
        return self.objs[v]

    def iterator(self, v, d):
        return iter(self.read(v))

    def type(self, v, d):
        return resolve(v)

    function = type

    def mod(self, v, d):
        m = importlib.import_module(v.split("/")[0])
        self.enter(m)
        return m

    def repr(self, v, d):
        x = datetime.timedelta(3)
        self.enter(x)
        return x

    def reduce(self, v, d):
        i = self.enter(PENDING)
        f, args = ("newobj" if v[0] == "py/newobj" else self.read(v[0])), self.read(v[1])
        if f == "newobj" or f.__name__ == "__newobj__":
            out = args[0].__new__(args[0], *args[1:])
        else:
            out = f(*args)
        self.objs[i] = out
        state, items, pairs = [self.read(x) for x in (list(v[2:5]) + [None] * 3)[:3]]
        if state:
            if hasattr(out, "__setstate__"):
                out.__setstate__(state)
            else:
                for k, x in state.items():
                    setattr(out, k, x)
        for x in items or ():
            out.append(x)
        for k, x in pairs or ():
            out[k] = x
        return out

    def object(self, v, d):
        i = self.enter(PENDING)
        special_ = SPECIAL_CLASSES.get(v)
        if special_:
            out = self.objs[i] = special_(self, d)
            return out
        cls = resolve(v)
        factory = self.read(d["default_factory"]) if "default_factory" in d else None
        kw = {}
        if "py/newargsex" in d:
            args, kw = self.read(d["py/newargsex"][0]), self.read(d["py/newargsex"][1])
        elif "py/newargs" in d or "py/initargs" in d:
            args = self.read(d.get("py/newargs", d.get("py/initargs")))
        elif hasattr(cls, "_fields"):
            args = self.read(d["py/seq"])
        else:
            args = ()
        out = cls.__new__(cls, *args, **kw)
        if factory:
            out.default_factory = factory
        self.objs[i] = out
        attributes = [(k, x) for k, x in d.items() if k not in TAGGED and k != "default_factory"]
        for k, x in sorted(attributes, key=lambda kx: kx[0] == "__dict__"):
            x = self.read(x)
            if isinstance(out, dict) and k != "__dict__":
                out[k] = x
            else:
                setattr(out, k, x)
        if isinstance(out, tuple):
            return out
        for x in d.get("py/seq", ()):
            (out.append if isinstance(out, list) else out.add)(self.read(x))
        if "py/state" in d:
            state = self.read(d["py/state"])
            if hasattr(out, "__setstate__"):
                out.__setstate__(state)
            else:
                for part in state if isinstance(state, tuple) else [state]:
                    for k, x in (part or {}).items():
                        setattr(out, k, x)
        return out


SPECIAL_CLASSES = {
    "uuid.UUID": lambda r, d: uuid.UUID(d["hex"]),
    "re.Pattern": lambda r, d: re.compile(d["pattern"]),
    "datetime.date": lambda r, d: datetime.date(2016, 1, 8),
}


def reduced(name, *args):
    return {"py/object": name, "__reduce__": [typ(name), list(args)]}


UTC_DOC = {"py/reduce": [typ("datetime.timezone"), tup({"py/reduce": [typ("datetime.timedelta"), tup(0, 0, 0)]})]}
# documents as they were written, and what they stand for
GOLDEN = [
    (reduced("datetime.datetime", "B+ABCAAAAAAAAA=="), lambda: datetime.datetime(2016, 1, 8)),
    (reduced("datetime.datetime", "B+ABCAECAwAABA=="), lambda: datetime.datetime(2016, 1, 8, 1, 2, 3, 4)),
    (reduced("datetime.datetime", "B+ABCAAAAAAAAA==", UTC_DOC), lambda: datetime.datetime(2016, 1, 8, tzinfo=datetime.timezone.utc)),
    (reduced("datetime.date", "B+ABCA=="), lambda: datetime.date(2016, 1, 8)),
    (reduced("datetime.time", "AQIDAAAE"), lambda: datetime.time(1, 2, 3, 4)),
    ({"py/object": "datetime.datetime", "__reduce__": tup(typ("datetime.datetime"), ["B+ABCAAAAAAAAA=="])}, None),
    ({"py/object": "uuid.UUID", "hex": "12345678123456781234567812345678"}, lambda: uuid.UUID("12345678123456781234567812345678")),
    ({"py/object": "re.Pattern", "pattern": "a|b"}, lambda: re.compile("a|b")),
    ({"py/object": "re.Pattern", "pattern": "a|b", "flags": 2}, lambda: re.compile("a|b", re.I)),
    ({"py/object": "array.array", "typecode": "i", "values": [1, 2]}, lambda: array.array("i", [1, 2])),
    ({"py/reduce": [typ("decimal.Decimal"), tup("1.50")]}, lambda: decimal.Decimal("1.50")),
    ({"py/reduce": [typ("decimal.Decimal"), tup("1.50"), None, None, None]}, lambda: decimal.Decimal("1.50")),
    ({"py/reduce": [typ("decimal.Decimal"), ["1.50"], None]}, lambda: decimal.Decimal("1.50")),
    ({"py/reduce": [typ("datetime.timedelta"), tup(1, 2, 3)]}, lambda: datetime.timedelta(1, 2, 3)),
    ({"py/reduce": [typ("collections.OrderedDict"), tup([["a", 1], ["b", 2]]), None, None, None]}, lambda: collections.OrderedDict(a=1, b=2)),
    ({"py/reduce": [typ("collections.OrderedDict"), tup(), None, None, tup(tup("a", 1))]}, lambda: collections.OrderedDict(a=1)),
    ({"py/reduce": [typ("collections.Counter"), tup({"a": 2})]}, lambda: collections.Counter(a=2)),
    ({"py/reduce": [typ("collections.deque"), tup([], 3), None, tup(1, 2), None]}, lambda: collections.deque([1, 2], 3)),
    ({"py/reduce": [typ("collections.deque"), tup(), None, [1, 2]]}, lambda: collections.deque([1, 2])),
    ({"py/object": "__builtin__.complex", "py/newargs": tup(1.0, 2.0)}, lambda: 1 + 2j),
    ({"py/object": "builtins.complex", "py/newargs": [1.0, 2.0]}, lambda: 1 + 2j),
    ({"py/object": "builtins.frozenset", "py/seq": []}, None),
    ({"py/object": "collections.defaultdict", "default_factory": typ("__builtin__.int"), "a": 1}, lambda: collections.defaultdict(int, a=1)),
    ({"py/object": "mc.zoo.Point", "py/seq": [1, 2]}, lambda: zoo.Point(1, 2)),
    ({"py/object": "mc.zoo.Point", "py/newargs": [1, 2]}, lambda: zoo.Point(1, 2)),
    ({"py/object": "mc.zoo.TypedPoint", "py/seq": [1, 2]}, lambda: zoo.TypedPoint(1, 2)),
    ({"py/reduce": [typ("mc.zoo.Color"), tup("blue")]}, lambda: zoo.Color.BLUE),
    ({"py/reduce": [typ("mc.zoo.Level"), [3]]}, None),
    ({"py/repr": "datetime/datetime.timedelta(2)"}, lambda: datetime.timedelta(2)),
    ({"py/repr": "decimal/decimal.Decimal('1.5')"}, lambda: decimal.Decimal("1.5")),
    ({"py/repr": "collections.abc/collections.OrderedDict(a=1)"}, lambda: collections.OrderedDict(a=1)),
    ({"py/mod": "os.path/posixpath"}, None),
    ({"py/type": "exceptions.KeyError"}, lambda: KeyError),
    ({"py/type": "__builtin__.dict"}, lambda: dict),
    ({"py/function": "__builtin__.len"}, lambda: len),
    ({"py/b64": ""}, lambda: b""),
    ({"py/b85": ""}, lambda: b""),
    ({"py/bytea": {"py/b85": "VPO"}}, lambda: bytearray(base64.b85decode("VPO"))),
    ({"py/tuple": []}, lambda: ()),
    ({"py/set": []}, set),
]
GOLDEN = [(d, f) for d, f in GOLDEN if f is not None]
for _name in ("builtins.NoneType", "__builtin__.NoneType", "types.NoneType"):
    GOLDEN.append((typ(_name), lambda: type(None)))
for _name, _v in sorted(vars(builtins).items()):
    if _name == getattr(_v, "__name__", None) and not _name.startswith("_") and _name not in ("copyright", "credits", "license"):
        for _module in ("__builtin__", "builtins") + (("exceptions",) if isinstance(_v, type) and issubclass(_v, BaseException) else ()):
            GOLDEN.append((typ(f"{_module}.{_name}") if isinstance(_v, type) else {"py/function": f"{_module}.{_name}"}, lambda v=_v: v))
# how many numbers each of them takes depends on the list of its arguments


def orders(d):
    """Every order of the tags of one object; the attributes keep theirs."""
    tags = [k for k in d if k.startswith("py/")]
    rest = [k for k in d if not k.startswith("py/")]
    for perm in itertools.permutations(tags):
        for slots in itertools.combinations(range(len(d)), len(tags)):
            t, r = iter(perm), iter(rest)
            yield {k: d[k] for k in [next(t) if i in slots else next(r) for i in range(len(d))]}


def tagged(doc, path=()):
    if isinstance(doc, list):
        for i, v in enumerate(doc):
            yield from tagged(v, (*path, i))
    elif isinstance(doc, dict):
        if any(k.startswith("py/") for k in doc) and len(doc) > 1:
            yield path
        for k, v in doc.items():
            yield from tagged(v, (*path, k))


def at(doc, path):
    for p in path:
        doc = doc[p]
    return doc


def replaced(doc, path, new):
    if not path:
        return new
    if isinstance(doc, list):
        return [replaced(v, path[1:], new) if i == path[0] else v for i, v in enumerate(doc)]
    return {k: replaced(v, path[1:], new) if k == path[0] else v for k, v in doc.items()}


def turned(doc):
    """The tags last, everywhere."""
    if isinstance(doc, list):
        return [turned(v) for v in doc]
    if isinstance(doc, dict):
        keys = [k for k in doc if not k.startswith("py/")] + [k for k in reversed(doc) if k.startswith("py/")]
        return {k: turned(doc[k]) for k in keys}
    return doc


NAMES = [n for g, ns in GROUPS.items() if g not in ("opaque",) for n in ns]


class C29(Check):
    id = "C29"
    technique = "exhaustive enumeration of documents over the tag grammar against an independent reference reader; all tag orders of current documents; golden documents"
    rule = "every document within the bound; a state is a distinct document"

    @property
    def bounds(self):
        return {"forms": len(FORMS) + len(LEAF_FORMS), "forms with holes per document": 4 if self.thorough else 3, "references": "0..4", "golden documents": len(GOLDEN),
                "binary strings": "all up to 2 bytes"}

    def cases(self):
        for t in terms(FORMS, 2, (0,), range(1, 4), SMALL if not self.thorough else LEAF_FORMS):
            for v1 in (False, True):
                yield ("doc", t, v1)
        for t in terms(FORMS, 1, (0, 1, 2), range(3), LEAF_FORMS):
            for v1 in (False, True):
                for c in ("list", "dict", "attr", "twice"):
                    yield ("in", t, v1, c)
        forms = CORE if self.thorough else ["list2", "dict1", "plain", "state", "reduce_state", "dictsub_attr", "point_seq"]
        for t in terms(forms, 3, (0,), range(5) if self.thorough else (1, 2, 3)):
            for v1 in (False, True):
                yield ("doc", t, v1)
        for t in terms(["list2", "dict2", "plain"], 4 if self.thorough else 3, (0,), range(6)):
            for v1 in (False, True):
                yield ("doc", t, v1)
        for g in range(len(GOLDEN)):
            for h in range(40):
                for p in range(4):
                    yield ("golden", g, h, p)
        for n in NAMES:
            for c in rt.CONTEXTS:
                yield ("order", n, c)
        kinds = [k for k in graphs.KINDS if k not in ("set",)]
        for t in graphs.terms(kinds, 2, (0,), {k: (max(a for a in graphs.KINDS[k].arities if a < 4),) for k in kinds}):
            yield ("orderg", t)
        for n in range(3):
            for tag in ("b64", "b85"):
                for first in range(256 if n else 1):
                    yield ("bytes", tag, n, first)

    def run_case(self, case):
        getattr(self, "run_" + case[0])(*case[1:])

    def expect(self, doc, want, v1=False, **kw):
        text = json.dumps(doc)
        self.state(text)
        back = jsonpickle.decode(text, v1_decode=v1, **kw)
        self.step()
        a, b = snap(want), snap(back)
        if a != b:
            raise Violation(f"{first_difference(a, b)}\n  v1_decode {v1}\n  document {text[:600]}")

    def run_doc(self, term, v1):
        doc = document(term)
        self.expect(doc, Reader(v1).read(doc), v1, safe="repr" not in str(term))

    def run_in(self, term, v1, place):
        d = document(term)
        doc = {
            "list": [d, [5], {"py/id": 2}, {"py/id": 1}],
            "dict": {"x": [6], "d": d, "y": {"py/id": 1}, "z": {"py/id": 2}},
            "attr": {"py/object": "mc.zoo.Plain", "d": d, "s": [7], "t": {"py/id": 1}, "u": {"py/id": 2}},
            "twice": [d, d, {"py/id": 2}],
        }[place]
        self.expect(doc, Reader(v1).read(doc), v1, safe="repr" not in str(term))

    def run_golden(self, g, h, p):
        doc, make = GOLDEN[g]
        if p == 0:
            if h:
                raise Skip
            got, want = doc, make()
        else:
            other, make2 = GOLDEN[h]
            got = [[doc, other], {"a": doc, "b": other}, {"py/object": "mc.zoo.Plain", "a": other, "b": doc}][p - 1]
            a, b = make(), make2()
            if p == 3:
                want = zoo.Plain()
                want.a, want.b = b, a
            else:
                want = [a, b] if p == 1 else {"a": a, "b": b}
        text = json.dumps(got)
        self.state(text)
        back = jsonpickle.decode(text, safe=False)
        self.step()
        a, b = snap(want, identity=False), snap(back, identity=False)
        if a != b:
            raise Violation(f"{first_difference(a, b)}, document {text}")

    def run_order(self, name, context):
        self.reorder(jsonpickle.encode(rt.CONTEXTS[context](V[name])))

    def run_orderg(self, term):
        if not graphs.closable(term):
            raise Skip
        self.reorder(jsonpickle.encode(graphs.build(term, [1])))

    def reorder(self, text):
        doc = json.loads(text)
        want = snap(jsonpickle.decode(text))
        self.step()

        def one(changed):
            t = json.dumps(changed)
            self.state(t)
            got = snap(jsonpickle.decode(t))
            self.step()
            if got != want:
                raise Violation(f"{first_difference(want, got)}\n  document {t[:500]}\n  written {text[:500]}")

        paths = list(tagged(doc))
        for path in paths:
            part = at(doc, path)
            if len(part) > 6:
                continue
            for changed in orders(part):
                one(replaced(doc, path, changed))
        if paths:
            one(turned(doc))

    def run_bytes(self, tag, n, first):
        encode = base64.b64encode if tag == "b64" else base64.b85encode
        if n < 2:
            values = [bytes([first])[:n]]
        else:
            values = [bytes([first, b]) for b in range(256)]
        docs = [{"py/" + tag: encode(v).decode()} for v in values]
        self.expect([docs, [{"py/bytea": d} for d in docs]], [values, [bytearray(v) for v in values]])


CHECK = C29
