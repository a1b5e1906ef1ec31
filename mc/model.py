"""A reference encoder: the wire format written down independently of jsonpickle.

It covers the closed set of classes in FORM.  It is used as the oracle for the
text that is written (C30), for the output without tags (C07), for the output
without references (C08) and for the depth limit (C09).  A node of its output
is a list, a Pairs object (a JSON object with ordered members) or a scalar.
"""

import base64
import collections
import datetime
import decimal
import enum
import fractions
import json
import re
import types
import uuid

from . import zoo


class Pairs(list):
    """A JSON object: a list of (key, value)."""

    def add(self, k, v):
        for i, (kk, _) in enumerate(self):
            if kk == k:
                self[i] = (k, v)
                return
        self.append((k, v))


def parse(text):
    """JSON text to nodes, keeping the order of members."""
    return json.loads(text, object_pairs_hook=lambda ps: Pairs(ps))


def same(a, b):
    """Exact equality: 1, 1.0 and True differ, nan equals nan."""
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        if len(a) != len(b):
            return False
        if isinstance(a, Pairs):
            return all(k == l and same(x, y) for (k, x), (l, y) in zip(a, b))
        return all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return repr(a) == repr(b)
    return a == b


def show(n):
    if isinstance(n, Pairs):
        return "{" + ", ".join(f"{json.dumps(k)}: {show(v)}" for k, v in n) + "}"
    if isinstance(n, list):
        return "[" + ", ".join(map(show, n)) + "]"
    return json.dumps(n)


SCALARS = {str, bool, int, float, type(None)}
FUNCTIONS = (types.FunctionType, types.BuiltinFunctionType)
FORM = {}


def form(*classes):
    def deco(fn):
        for c in classes:
            FORM[c] = fn
        return fn

    return deco


def name(cls):
    if cls is type(None):
        return "types.NoneType"
    if cls is types.FunctionType:
        return "types.LambdaType"
    return f"{cls.__module__}.{cls.__qualname__}"


def droppable(v):
    """Values that are left out of dictionaries and attributes."""
    return isinstance(v, types.MethodType) or (
        isinstance(v, FUNCTIONS) and v.__name__ == "<lambda>"
    )


RESERVED = {
    "py/" + n
    for n in "bytes bytea b64 b85 function id initargs iterator mod newargs newargsex newobj object "
    "property reduce default_factory ref repr seq set state tuple type".split()
}


def collides(k):
    return isinstance(k, str) and (k in RESERVED or k.startswith("json://") or k == "__dict__")


class Unmodelled(Exception):
    pass


class Model:
    def __init__(self, unpicklable=True, make_refs=True, max_depth=None, use_base85=False, keys=False,
                 numeric_keys=False, max_iter=None):
        self.tags = unpicklable
        self.refs = make_refs
        self.limit = max_depth
        self.b85 = use_base85
        self.numeric_keys = numeric_keys
        self.max_iter = max_iter
        self.number = {}
        self.done = {}
        self.keep = []
        self.depth = -1
        self.keys = keys

    def encode(self, x):
        return self.flat(x)

    # every value passes here
    def flat(self, x):
        t = type(x)
        if t in SCALARS:
            return x
        if t is bytes:
            return self.binary(x)
        if t is bytearray:
            return Pairs([("py/bytea", self.binary(bytes(x)))])
        if self.tags and self.refs:
            return self.level(x)
        # without references every object is written the same way each time
        if id(x) not in self.done:
            self.keep.append(x)
            self.done[id(x)] = self.level(x)
        return self.done[id(x)]

    def binary(self, x):
        if self.b85:
            return Pairs([("py/b85", base64.b85encode(x).decode())])
        return Pairs([("py/b64", base64.b64encode(x).decode())])

    def level(self, x):
        self.depth += 1
        try:
            return self.value(x)
        finally:
            self.depth -= 1

    def value(self, x):
        if self.depth == self.limit and not isinstance(x, enum.Enum):
            return repr(x)
        t = type(x)
        if t is tuple or t is set:
            items = [self.flat(v) for v in x]
            return self.tagged("py/tuple" if t is tuple else "py/set", items)
        if isinstance(x, type):
            return Pairs([("py/type", name(x))])
        if isinstance(x, FUNCTIONS):
            if x.__name__ == "<lambda>" or not self.tags:
                return None
            return Pairs([("py/function", name(x))])
        # lists, dictionaries and instances are numbered
        self.keep.append(x)
        if id(x) in self.number:
            if self.tags and self.refs:
                return Pairs([("py/id", self.number[id(x)])])
            if not self.refs:
                return repr(x)
            return None
        self.number[id(x)] = len(self.number)
        if t is list:
            return [self.flat(v) for v in x]
        if t is dict:
            return self.members(x, Pairs())
        if isinstance(x, enum.Enum) and self.tags:
            return self.reduce(t, (x.value,))
        fn = FORM.get(t)
        if fn is None:
            raise Unmodelled(t)
        return fn(self, x)

    def tagged(self, tag, node):
        return Pairs([(tag, node)]) if self.tags else node

    def obj(self, x):
        return Pairs([("py/object", name(type(x)))]) if self.tags else Pairs()

    def members(self, d, out):
        if self.keys:
            # string keys first, then the ones that need an escape
            for k, v in d.items():
                if isinstance(k, str) and not collides(k) and not droppable(v):
                    out.add(k, self.flat(v))
            for k, v in d.items():
                if collides(k) or not (isinstance(k, str) or droppable(v)):
                    kk = "json://" + show(self.flat(k))
                    out.add(kk, self.flat(v))
            return out
        for k, v in d.items():
            if k in RESERVED or droppable(v):
                continue
            out.add(self.key(k), self.flat(v))
        return out

    def key(self, k):
        if k is None:
            return "null"
        if isinstance(k, str):
            return k
        if self.numeric_keys and isinstance(k, (int, float)):
            # what the JSON writer makes of a number
            if isinstance(k, bool):
                return "true" if k else "false"
            return repr(k)
        return repr(k)

    def attrs(self, x, names=None):
        return self.members(vars(x), self.obj(x))

    def reduce(self, fn, args, *rest):
        node = [self.flat(fn), self.flat(args)] + [self.flat(r) for r in rest]
        while len(node) > 2 and node[-1] is None:
            node.pop()
        return Pairs([("py/reduce", node)])


# --- one rule per class -----------------------------------------------------------


@form(zoo.Plain, zoo.PlainChild, zoo.Outer.Inner, zoo.Outer.Mid.Deep, zoo.WithInit, zoo.ClassDefaults,
      zoo.Data, zoo.Frozen, zoo.Tagged, zoo.Ident, zoo.Private, zoo.PrivateChild, zoo.DataNoEq, zoo.Counter0)
def _attrs(m, x):
    return m.attrs(x)


def slotted(*names):
    def fn(m, x):
        out = m.obj(x)
        for n in names:
            attr = f"_{type(x).__name__}{n}" if n.startswith("__") else n
            if hasattr(x, attr):
                v = getattr(x, attr)
                if not droppable(v):
                    out.add(n, m.flat(v))
        return out

    return fn


FORM[zoo.Slots] = slotted("a", "b")
FORM[zoo.DataSlots] = slotted("a", "b")
FORM[zoo.SlotsChild] = slotted("c", "a", "b")
FORM[zoo.SlotsStr] = slotted("a")
FORM[zoo.SlotsList] = slotted("a", "b")
FORM[zoo.SlotsPrivate] = slotted("__a", "b")


def state(m, x, st):
    if not m.tags:
        return m.flat(st)
    out = m.obj(x)
    out.add("py/state", m.flat(st))
    return out


@form(zoo.GetSet)
def _getset(m, x):
    return state(m, x, {"packed": [getattr(x, "a", None), getattr(x, "b", None)]})


@form(zoo.GetSetTuple)
def _getset_tuple(m, x):
    return state(m, x, (getattr(x, "a", None), getattr(x, "b", None)))


@form(zoo.GetOnly)
def _getonly(m, x):
    if not vars(x):
        return m.attrs(x)
    return state(m, x, dict(vars(x)))


@form(zoo.ListSub, zoo.SetSub)
def _list_sub(m, x):
    out = m.attrs(x)
    items = [m.flat(v) for v in x]
    if not m.tags:
        return items
    out.add("py/seq", items)
    return out


@form(zoo.DictSub)
def _dict_sub(m, x):
    out = m.members(x, m.obj(x))
    if m.tags and "default_factory" in x:
        # an item, not a factory
        out.add("py/default_factory", None)
    if m.tags and (len(x) or vars(x)):
        # the attribute dictionary is an object of its own
        m.number[id(vars(x))] = len(m.number)
        m.keep.append(vars(x))
        out.add("__dict__", m.members(vars(x), Pairs()))
    return out


@form(zoo.TupleSub)
def _tuple_sub(m, x):
    out = m.obj(x)
    if not m.tags:
        m.flat((tuple(x),))
        return [m.flat(v) for v in x]
    out.add("py/newargs", m.flat((tuple(x),)))
    m.members(vars(x), out)
    out.add("py/seq", [m.flat(v) for v in x])
    return out


@form(zoo.Point)
def _point(m, x):
    out = m.obj(x)
    args = m.flat(tuple(x))
    items = [m.flat(v) for v in x]
    if not m.tags:
        return items
    out.add("py/newargs", args)
    out.add("py/seq", items)
    return out


@form(zoo.StrSub)
def _str_sub(m, x):
    if not m.tags:
        raise Unmodelled("newargs")
    out = m.obj(x)
    out.add("py/newargs", m.flat((str(x),)))
    return m.members(vars(x), out)


@form(collections.OrderedDict)
def _odict(m, x):
    if not m.tags:
        return m.members(x, Pairs())
    return m.reduce(collections.OrderedDict, (), None, None, tuple(x.items()))


@form(collections.Counter)
def _counter(m, x):
    if not m.tags:
        return m.members(x, Pairs())
    return m.reduce(collections.Counter, (dict(x),))


@form(collections.defaultdict)
def _ddict(m, x):
    if x.default_factory is not None and not isinstance(x.default_factory, type):
        raise Unmodelled("factory")
    out = m.members(x, m.obj(x))
    if x.default_factory is not None:
        slot = "py/default_factory" if "default_factory" in x else "default_factory"
        out.add(slot, Pairs([("py/type", name(x.default_factory))]))
    elif m.tags and "default_factory" in x:
        out.add("py/default_factory", None)
    return out


@form(collections.deque)
def _deque(m, x):
    if not m.tags:
        raise Unmodelled("deque")
    args = () if x.maxlen is None else ((), x.maxlen)
    return m.reduce(collections.deque, args, None, tuple(x))


@form(zoo.Err)
def _error(m, x):
    if not m.tags:
        return m.members(vars(x), Pairs())
    return m.reduce(type(x), x.args, vars(x))


@form(zoo.Reduced)
def _reduced(m, x):
    if not m.tags:
        return m.attrs(x)
    return m.reduce(zoo.rebuild, (getattr(x, "a", None), getattr(x, "b", None)))


@form(zoo.ReduceState)
def _reduce_state(m, x):
    if not m.tags:
        return m.attrs(x)
    return m.reduce(zoo.ReduceState, (), dict(vars(x)))


@form(zoo.ReduceSetState)
def _reduce_setstate(m, x):
    if not m.tags:
        return m.attrs(x)
    return m.reduce(zoo.ReduceSetState, (), {"s": [getattr(x, "a", None), getattr(x, "b", None)]})


@form(zoo.NewArgs)
def _newargs(m, x):
    if not m.tags:
        raise Unmodelled("newargs")
    out = m.obj(x)
    out.add("py/newargs", m.flat((x.a, x.b)))
    return m.members(vars(x), out)


@form(zoo.NewArgsEx)
def _newargs_ex(m, x):
    if not m.tags:
        raise Unmodelled("newargs")
    out = m.obj(x)
    out.add("py/newargsex", [m.flat((x.a,)), m.flat({"b": x.b})])
    return m.members(vars(x), out)


@form(zoo.Handled)
def _handled(m, x):
    out = m.obj(x)
    out.add("parts", [m.flat(getattr(x, n, None)) for n in "ab"])
    return out


@form(datetime.datetime, datetime.date, datetime.time)
def _dates(m, x):
    if not m.tags:
        return x.isoformat()
    cls, args = x.__reduce_ex__(4)
    out = m.obj(x)
    node = [m.flat(cls), None]
    node[1] = [base64.b64encode(args[0]).decode()] + [m.flat(a) for a in args[1:]]
    out.add("__reduce__", node)
    return out


@form(datetime.timedelta)
def _timedelta(m, x):
    args = (x.days, x.seconds, x.microseconds)
    return m.reduce(datetime.timedelta, args) if m.tags else m.flat(args)


@form(decimal.Decimal)
def _decimal(m, x):
    return m.reduce(decimal.Decimal, (str(x),)) if m.tags else m.flat((str(x),))


@form(fractions.Fraction)
def _fraction(m, x):
    if not m.tags:
        raise Unmodelled("fraction")
    return m.reduce(fractions.Fraction, (x.numerator, x.denominator))


@form(complex)
def _complex(m, x):
    if not m.tags:
        raise Unmodelled("complex")
    return Pairs([("py/object", "builtins.complex"), ("py/newargs", m.flat((x.real, x.imag)))])


@form(uuid.UUID)
def _uuid(m, x):
    out = m.obj(x)
    out.add("hex", x.hex)
    return out


@form(re.Pattern)
def _pattern(m, x):
    out = m.obj(x)
    out.add("pattern", m.flat(x.pattern))
    out.add("flags", x.flags)
    return out


@form(frozenset)
def _frozenset(m, x):
    if not m.tags:
        return m.flat((list(x),))
    return m.reduce(frozenset, (list(x),))


@form(range)
def _range(m, x):
    args = (x.start, x.stop, x.step)
    return m.reduce(range, args) if m.tags else m.flat(args)


@form(slice)
def _slice(m, x):
    args = (x.start, x.stop, x.step)
    return m.reduce(slice, args) if m.tags else m.flat(args)


@form(types.ModuleType)
def _module(m, x):
    return Pairs([("py/mod", f"{x.__name__}/{x.__name__}")]) if m.tags else str(x)


@form(types.MethodType)
def _method(m, x):
    if not m.tags:
        raise Unmodelled("method")
    return m.reduce(getattr, (x.__self__, x.__func__.__name__))
