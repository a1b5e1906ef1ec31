"""C03: instances come back with the same class and state."""

import collections
import itertools

from .. import gen, rt, zoo
from ..core import Check, Skip, Violation
from ..values import V

NAMES = [
    "a", "A", "_a", "a_", "_a_", "a__", "_", "x1", "é", "items", "keys", "values", "get", "pop",
    "append", "add", "extend", "update", "tag", "self", "cls", "state", "py", "json", "args",
    "default_factory", "maxlen", "_fields", "__dict", "name", "value", "context", "a.b", "a/b",
    "a b", "1", "null", "None", "true", "", "py_object", "json:", "object", "_Plain__a",
    "_Other__a", "x" * 300,
]
# __dict is not a name a class can use without mangling
NAMES.remove("__dict")

HOLDERS = {
    "plain": zoo.Plain,
    "child": zoo.PlainChild,
    "inner": zoo.Outer.Inner,
    "deep": zoo.Outer.Mid.Deep,
    "defaults": zoo.ClassDefaults,
    "getattr": zoo.WithGetattr,
    "setattr": zoo.WithSetattr,
    "property": zoo.WithProperty,
    "call": zoo.WithCall,
    "items": zoo.WithItems,
    "append": zoo.WithAppend,
    "badeq": zoo.BadEq,
    "badrepr": zoo.BadRepr,
    "badhash": zoo.BadHash,
    "badbool": zoo.BadBool,
    "meta": lambda: object.__new__(zoo.WithMeta),
    "generic": lambda: zoo.Box[int](),
    "new": zoo.NewOnly,
    "data": lambda: zoo.DataNoEq(1, 2),
    "err": lambda: zoo.Err("m"),
    "errnew": lambda: zoo.ErrNew("m", 2),
    "mixed": zoo.Mixed,
    "mixed_dict": zoo.MixedDict,
    "list": lambda: zoo.ListSub([1, 2]),
    "dict": lambda: zoo.DictSub(k=1),
    "set": lambda: zoo.SetSub([1, 2]),
    "tuple": lambda: zoo.TupleSub([1, 2]),
    "str": lambda: zoo.StrSub("s"),
    "point": lambda: zoo.PointSub(1, 2),
}
CONTAINERS = {"list", "dict", "set", "tuple", "str", "point", "append", "err", "errnew", "items", "property"}
SHADOWS = {
    "items", "keys", "values", "get", "pop", "append", "add", "extend", "update", "args",
    "default_factory", "_fields", "maxlen",
}

WHOLE = {
    "underscore": lambda: fill(zoo._Underscore(), 1, [2]),
    "slot_names": lambda: assign(zoo.SlotNames(), zoo.SlotNames.__slots__),
    "slot_names_half": lambda: assign(zoo.SlotNames(), zoo.SlotNames.__slots__[::2]),
    "frozen_slots": lambda: zoo.FrozenBySlots([1], 2),
    "frozen_slots_none": lambda: zoo.FrozenBySlots(None, False),
    "private": lambda: fill(zoo.Private(), 1, [2]),
    "private_child": lambda: fill(zoo.PrivateChild(), 1, [2]),
    "slots_private": lambda: fill(zoo.SlotsPrivate(), 1, [2]),
    "list_init": lambda: zoo.ListInit(1, [2]),
    "dict_init": lambda: zoo.DictInit(1, [2]),
    "set_init": lambda: zoo.SetInit(1, "2"),
    "tuple_new": lambda: zoo.TupleNew(1, [2]),
    "point_sub": lambda: zoo.PointSub(1, [2]),
    "point_slots": lambda: zoo.PointSlots(1, [2]),
    "wide": lambda: zoo.Wide(1, 2, 3, 4, [5]),
    "renamed": lambda: zoo.Renamed(1, [2], 3),
    "empty_nt": zoo.Empty,
    "post_init": lambda: zoo.PostInit(3),
    "err_str": lambda: zoo.ErrStr("x"),
    "err_new": lambda: zoo.ErrNew("x", [1]),
    "prop": zoo.WithProperty,
    "new_only": zoo.NewOnly,
}
ENUMS = [
    *zoo.Color, *zoo.Level, *zoo.Perm, *zoo.IntPerm, *zoo.StrEn, *zoo.Shape, *zoo.Planet,
    *zoo.Auto, *zoo.MixEnum, *zoo.BytesEnum, *zoo.Holder.Kind, *zoo.Holder.IntKind,
    zoo.Perm(0), zoo.Perm(3), zoo.IntPerm(0), zoo.IntPerm(3),
]
ERRORS = [
    e for e in sorted(vars(__import__("builtins")).values(), key=repr)
    if isinstance(e, type) and issubclass(e, BaseException)
    and e not in (BaseExceptionGroup, ExceptionGroup)
]
ERROR_ARGS = [(), ("m",), ("m", 2), (["x"], None), (2, "No such file"), (13, "denied", "name")]
UNICODE = {
    "UnicodeDecodeError": ("utf-8", b"\xff", 0, 1, "bad"),
    "UnicodeEncodeError": ("ascii", "é", 0, 1, "bad"),
    "UnicodeTranslateError": ("é", 0, 1, "bad"),
}


def assign(o, names):
    for i, n in enumerate(names):
        setattr(o, n, [i] if i % 2 else i)
    return o


def fill(o, *v):
    o.fill(*v)
    return o


def supported(base, levels):
    """The shapes the property speaks about."""
    slotted = {"sa", "sb", "sab", "sp", "sd"} & set(levels)
    if slotted and base not in ("object", "deque", "frozenset"):
        return False
    if "init" in levels and base in ("Exception", "deque", "frozenset"):
        return False  # rebuilt by calling the class, as pickle does
    cls = gen.make_class(base, levels)
    if cls is None:
        return False
    if base in ("str", "int", "float", "bytes"):
        return hasattr(cls.__new__(cls), "__dict__")
    return True


class C03(Check):
    id = "C03"
    technique = "exhaustive enumeration of class shapes and attribute assignments on the real code"
    rule = (
        "every class shape (base, chain of levels), every assignment of {unset, number, null, shared list} "
        "to its attributes, every attribute name, enumeration member and exception; a state is a distinct text"
    )

    @property
    def bounds(self):
        return {
            "bases": sorted(gen.BASES),
            "levels": list(gen.LEVELS),
            "inheritance depth": 3 if not self.thorough else "3, containers 3",
            "attribute names": len(NAMES),
            "dataclass option sets": len(list(gen.dataclass_shapes())),
        }

    def cases(self):
        for base in gen.BASES:
            deep = 3 if base == "object" or self.thorough else 2
            for d in range(1, deep + 1):
                for levels in itertools.product(gen.LEVELS, repeat=d):
                    if not supported(base, levels):
                        continue
                    for c in range(len(gen.CONTENTS[base])):
                        yield ("shape", base, levels, c)
        for flags, child in gen.dataclass_shapes():
            for vals in itertools.product(range(4), repeat=3):
                yield ("data", flags, child, vals)
        for h in HOLDERS:
            for n in NAMES:
                if h in CONTAINERS and n in SHADOWS:
                    continue
                for v in range(4):
                    yield ("name", h, n, v)
        for h in ("plain", "mixed", "dict", "list", "err"):
            for pair in itertools.permutations(NAMES[:10] + ["é", "a.b"], 2):
                if h in CONTAINERS and set(pair) & SHADOWS:
                    continue
                yield ("names", h, pair)
        for w in WHOLE:
            for c in rt.CONTEXTS:
                yield ("whole", w, c)
        for i in range(len(ENUMS)):
            for c in rt.CONTEXTS:
                yield ("enum", i, c)
        for i in range(len(ERRORS)):
            for a in range(len(ERROR_ARGS)):
                for x in (0, 1):
                    yield ("error", i, a, x)
        for h in HOLDERS:
            for v in V:
                if v not in ("lambda", "method", "stream", "queue", "lock"):
                    yield ("attr_value", h, v)
        yield ("init_calls",)

    def run_case(self, case):
        getattr(self, "run_" + case[0])(*case[1:])

    def run_shape(self, base, levels, c):
        names = gen.attribute_names(base, levels)
        wide = (0, 1, 2, 3) if len(names) <= 3 else (0, 3, 2)
        for vals in itertools.product(wide, repeat=len(names)):
            shared = [9]
            choice = [None, 1, None, shared]
            attrs = [(n, choice[v]) for n, v in zip(names, vals) if v]
            o = gen.instance(base, levels, gen.CONTENTS[base][c], attrs, shared)
            x = [o, shared, o]
            rt.same(self, x)
        rt.same(self, o)

    def run_data(self, flags, child, vals):
        cls = gen.make_dataclass(flags, child)
        if {"frozen", "slots"} <= set(flags) and 0 in vals:
            raise Skip  # their own __getstate__ needs every field
        o = object.__new__(cls)
        shared = [9]
        choice = [None, 1, None, shared]
        names = ["a", "b", "c", "d"] if child else ["a", "b", "c"]
        if child:
            vals = (*vals, vals[0] % 3 + 1)
        for n, v in zip(names, vals):
            if v:
                object.__setattr__(o, n, choice[v])
        rt.same(self, [o, shared, o])

    def value(self, v):
        return [1, None, [2], zoo.Plain()][v]

    def run_name(self, h, n, v):
        o = HOLDERS[h]()
        setattr(o, n, self.value(v))
        rt.same(self, [o, getattr(o, n), o])

    def run_names(self, h, pair):
        o = HOLDERS[h]()
        setattr(o, pair[0], [1])
        setattr(o, pair[1], [2])
        rt.same(self, [o, getattr(o, pair[1]), o], attr_order=True)

    def run_attr_value(self, h, v):
        o = HOLDERS[h]()
        o.vx = V[v]()
        o.vy = [1]
        rt.same(self, [o, o.vy, o.vx])

    def run_whole(self, w, c):
        rt.same(self, rt.CONTEXTS[c](WHOLE[w]))

    def run_enum(self, i, c):
        m = ENUMS[i]
        rt.same(self, rt.CONTEXTS[c](lambda: m))
        _, back = rt.roundtrip(self, [m, {"k": m}, m])
        if any(x is not m for x in (back[0], back[1]["k"], back[2])):
            raise Violation(f"{m!r} became {back!r}")

    def run_error(self, i, a, x):
        cls = ERRORS[i]
        args = UNICODE.get(cls.__name__, ERROR_ARGS[a])
        try:
            e = cls(*args)
        except TypeError:
            raise Skip from None
        if x:
            e.extra = [1]
            e.code_ = None
        e = [e, {"again": e}]
        _, back = rt.same(self, e)
        if str(back[0]) != str(e[0]) or type(back[0]) is not type(e[0]):
            raise Violation(f"{e[0]!r} became {back[0]!r}")
        for n in ("errno", "strerror", "filename", "code", "value", "name", "object", "start", "reason"):
            if getattr(e[0], n, None) != getattr(back[0], n, None):
                raise Violation(f"{n} of {e[0]!r} became {getattr(back[0], n, None)!r}")

    def run_init_calls(self):
        zoo.InitCounts.calls = 0
        o = zoo.InitCounts()
        o.a = "changed"
        del_ = zoo.InitCounts()
        del del_.a
        zoo.InitCounts.calls = 0
        rt.same(self, [o, del_, o])
        if zoo.InitCounts.calls:
            raise Violation("the initializer was called")


CHECK = C03
