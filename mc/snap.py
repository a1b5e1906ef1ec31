"""Canonical snapshots of Python object graphs.

snap(x) is a nested tuple that two graphs share exactly when they are
isomorphic: same concrete types, same scalar values, same contents in the same
order, same instance state, and the same sharing between identity-bearing
objects (an object met again is recorded as a back reference to the index it
was given when it was first met).
"""

import array
import collections
import datetime
import decimal
import enum
import fractions
import functools
import pathlib
import re
import types
import uuid

ATOMS = {type(None), bool, int, float, complex, str, bytes, range, slice}
BY_REPR = {
    decimal.Decimal,
    fractions.Fraction,
    uuid.UUID,
    datetime.timedelta,
    type(Ellipsis),
    type(NotImplemented),
    pathlib.PurePosixPath,
    pathlib.PosixPath,
}
BY_NAME = (type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType)
SPECIAL = {}


def special(*kinds):
    def deco(fn):
        for k in kinds:
            SPECIAL[k] = fn
        return fn

    return deco


@special(datetime.datetime, datetime.date, datetime.time)
def _dt(x, s):
    tz = getattr(x, "tzinfo", None)
    return (
        type(x),
        x.isoformat(),
        getattr(x, "fold", None),
        None if tz is None else (type(tz), repr(tz)),
    )


@special(re.Pattern)
def _re(x, s):
    return (type(x), x.pattern, x.flags)


@special(array.array)
def _arr(x, s):
    return (type(x), x.typecode, x.tobytes())


@special(bytearray)
def _ba(x, s):
    return (bytearray, bytes(x))


@special(types.MethodType)
def _meth(x, s):
    return (type(x), x.__func__, s.go(x.__self__))


@special(functools.partial)
def _partial(x, s):
    return (type(x), x.func, s.go(x.args), s.go(dict(x.keywords)))


def slot_names(cls):
    names = []
    for c in cls.__mro__:
        slots = c.__dict__.get("__slots__", ())
        if isinstance(slots, str):
            slots = (slots,)
        for n in slots:
            if n in ("__dict__", "__weakref__"):
                continue
            if n.startswith("__") and not n.endswith("__"):
                n = f"_{c.__name__.lstrip('_')}{n}"
            names.append(n)
    return names


class Snapper:
    def __init__(self, identity=True, ordered=True, track_sets=False, attr_order=False):
        self.identity = identity
        self.ordered = ordered
        self.attr_order = attr_order
        self.memo = {}
        self.keep = []

    def go(self, x):
        t = type(x)
        if t in ATOMS:
            return (t, repr(x))
        if t in BY_REPR:
            return (t, repr(x))
        if isinstance(x, BY_NAME) or isinstance(x, enum.Enum):
            return ("ref", x)
        if t is tuple:
            return (tuple, tuple([self.go(v) for v in x]))
        if t is set or t is frozenset:
            return (t, self.set_items(x))
        fn = SPECIAL.get(t)
        if fn is not None and t is bytearray:
            return fn(x, self)
        i = id(x)
        if i in self.memo:
            if self.identity:
                return ("again", self.memo[i])
            if self.memo[i] is None:
                return ("cycle",)
        self.memo[i] = len(self.memo) if self.identity else None
        self.keep.append(x)
        if fn is not None:
            out = fn(x, self)
        elif t is list:
            out = (list, tuple([self.go(v) for v in x]))
        elif t is dict:
            out = (dict, self.dict_items(x))
        else:
            out = self.instance(x)
        if not self.identity:
            self.memo[i] = 0
        return out

    def set_items(self, x):
        return tuple(
            [self.go(v) for v in sorted(x, key=lambda v: (type(v).__name__, set_key(v)))]
        )

    def dict_items(self, x):
        items = list(x.items())
        if not self.ordered:
            items.sort(key=lambda kv: (type(kv[0]).__name__, set_key(kv[0])))
        return tuple([(self.go(k), self.go(v)) for k, v in items])

    def attrs(self, d):
        items = list(d.items())
        if not self.attr_order:
            items.sort(key=lambda kv: repr(kv[0]))
        return tuple([(k, self.go(v)) for k, v in items])

    def instance(self, x):
        t = type(x)
        parts = [t]
        if isinstance(x, BaseException):
            parts.append(("args", self.go(x.args)))
        if isinstance(x, collections.deque):
            parts.append(("deque", x.maxlen, tuple([self.go(v) for v in x])))
        if isinstance(x, collections.defaultdict):
            parts.append(("factory", self.go(x.default_factory)))
        if isinstance(x, dict):
            parts.append(("items", self.dict_items(x)))
        elif isinstance(x, (list, tuple)):
            parts.append(("seq", tuple([self.go(v) for v in x])))
        elif isinstance(x, (set, frozenset)):
            parts.append(("set", self.set_items(x)))
        elif isinstance(x, (str, bytes, int, float, complex)):
            base = next(b for b in (str, bytes, int, float, complex) if isinstance(x, b))
            parts.append(("value", base.__repr__(x)))
        d = getattr(x, "__dict__", None)
        if d is x:
            parts.append(("dict-is-self",))
        elif isinstance(d, dict):
            parts.append(("attrs", self.attrs(d)))
        slots = []
        for n in slot_names(t):
            try:
                v = object.__getattribute__(x, n)
            except AttributeError:
                continue
            slots.append((n, self.go(v)))
        if slots:
            parts.append(("slots", tuple(slots)))
        return tuple(parts)


def set_key(v):
    tag = getattr(v, "tag", None)
    if tag is not None:
        return repr(tag)
    if isinstance(v, tuple):
        return "(" + ",".join([set_key(u) for u in v]) + ")"
    if isinstance(v, frozenset):
        return "{" + ",".join(sorted([set_key(u) for u in v])) + "}"
    if type(v).__repr__ is object.__repr__:
        return ""
    return repr(v)


def snap(x, **kw):
    return Snapper(**kw).go(x)


def first_difference(a, b, path="root"):
    if type(a) is tuple and type(b) is tuple:
        if len(a) != len(b):
            return f"at {path}: {short(a)} became {short(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_difference(x, y, f"{path}.{i}")
    return f"at {path}: {short(a)} became {short(b)}"


def short(x):
    r = repr(x)
    return r if len(r) < 300 else r[:300] + "..."
