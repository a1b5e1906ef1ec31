"""C36: handle_readonly leaves out exactly the read-only attributes of the encoded object."""

import itertools
import sys

import jsonpickle

from ..core import Check, Violation
from ..snap import first_difference, snap

NAMES = ("a", "b", "c")
KINDS = ("free", "locked", "computed", "managed")
OPTS = [{}, {"keys": True}, {"make_refs": False}, {"unpicklable": False}, {"numeric_keys": True}, {"indent": 1}, {"warn": True}, {"fail_safe": repr}, {"use_base85": True}]


class Other:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def members(kinds):
    """The class body that makes each attribute what it is to be."""
    locked = {n for n, k in zip(NAMES, kinds) if k == "locked"}

    def __setattr__(self, name, value):
        if name in locked:
            raise AttributeError(f"{name} cannot be set")
        object.__setattr__(self, name, value)

    body = {"__setattr__": __setattr__} if locked else {}
    for n, k in zip(NAMES, kinds):
        if k == "computed":
            body[n] = property(lambda self, n=n: self.__dict__.get(n))
        if k == "managed":
            body[n] = property(lambda self, n=n: self.__dict__.get(n), lambda self, v, n=n: self.__dict__.__setitem__(n, v))
    return body


def plain(kinds):
    return (), members(kinds)


def slotted(kinds):
    return (), {"__slots__": NAMES, **members(kinds)}


def mixed(kinds):
    base = type("Base", (), {"__slots__": NAMES[:2]})
    return (base,), members(kinds)


def with_state(kinds):
    return (), {"__getstate__": lambda self: dict(self.__dict__), **members(kinds)}


def with_own_state(kinds):
    return (), {"__getstate__": lambda self: self.__dict__, **members(kinds)}


def with_setstate(kinds):
    return (), {"__getstate__": lambda self: dict(self.__dict__), "__setstate__": lambda self, s: self.__dict__.update(s), **members(kinds)}


def listlike(kinds):
    return (list,), members(kinds)


FORMS = {"plain": plain, "slots": slotted, "mixed": mixed, "state": with_state, "ownstate": with_own_state, "setstate": with_setstate, "list": listlike}
MODULE = sys.modules[__name__]
CLASSES = {}
for form in FORMS:
    for kinds in itertools.product(KINDS, repeat=len(NAMES)):
        # slots cannot be properties at the same time
        own = {"slots": NAMES, "mixed": NAMES[:2]}.get(form, ())
        if any(n in own and k in ("computed", "managed") for n, k in zip(NAMES, kinds)):
            continue
        bases, body = FORMS[form](kinds)
        name = f"K_{form}_" + "_".join(kinds)
        cls = type(name, bases, {**body, "__module__": __name__})
        setattr(MODULE, name, cls)
        CLASSES[form, kinds] = cls


class Text(str):
    __slots__ = ()

    def html(self):
        return self

    @property
    def size(self):
        return len(self)


class Bare(str):
    __slots__ = ()


class TextChild(Text):
    __slots__ = ()


class Number(int):
    __slots__ = ()

    @property
    def half(self):
        return self // 2


VALUES = {
    "number": lambda s: 1,
    "text": lambda s: "a",
    "shared": lambda s: s,
    "dict": lambda s: {"a": 1, "b": s, "c": {"c": 3}, "d": 4},
    "listed": lambda s: [{"a": s}, {"b": 2}, ({"c": 5},)],
    "other": lambda s: Other(a=s, b={"b": 1}, c=2, d=3),
}


def fill(x, values, leave=()):
    s = [7]
    for n, v in zip(NAMES, values):
        if n in leave or v is None:
            continue
        object.__setattr__(x, n, VALUES[v](s)) if not hasattr(x, "__dict__") or n in getattr(type(x).__mro__[1], "__slots__", ()) else x.__dict__.__setitem__(n, VALUES[v](s))
    if isinstance(x, list):
        x.extend([1, s, {"a": 2}])
    return x


def attributes(x):
    """What an object holds, looked at without its properties."""
    out = {n: getattr(x, n) for c in type(x).__mro__ for n in getattr(c, "__slots__", ()) if hasattr(x, n)}
    out.update(getattr(x, "__dict__", {}))
    return out, list(x) if isinstance(x, list) else None


class C36(Check):
    id = "C36"
    technique = "exhaustive enumeration of classes by what their attributes allow, compared with objects that lack the read-only ones"
    rule = "every way to make each of three attributes free, guarded, computed or managed, in every form of class, with every choice of values and options"

    @property
    def bounds(self):
        return {"classes": len(CLASSES), "values": len(VALUES), "options": len(OPTS)}

    def cases(self):
        few = ["number", "shared", "dict", "other"]
        for (form, kinds) in CLASSES:
            for values in itertools.product(list(VALUES) if self.thorough else few, repeat=3):
                yield ("class", form, kinds, values, 0)
            for values in [("dict", "other", "listed"), ("listed", "dict", "text"), ("other", None, "dict"), (None, "dict", None)]:
                for o in range(len(OPTS)):
                    yield ("class", form, kinds, values, o)
        for cls in (Text, Bare, TextChild, Number):
            for v in ("", "a", "html", "12") if issubclass(cls, str) else (0, 1, -5, 10**30):
                for enc in (False, True):
                    for place in range(4):
                        yield ("derived", cls.__name__, v, enc, place)

    def run_case(self, case):
        getattr(self, "run_" + case[0])(*case[1:])

    def run_class(self, form, kinds, values, o):
        cls = CLASSES[form, kinds]
        x = fill(cls(), values)
        # an object with its own setter of the state decides itself
        gone = () if form == "setstate" else [n for n, k in zip(NAMES, kinds) if k in ("locked", "computed")]
        twin = fill(cls(), values, gone)
        before = snap(attributes(x))
        text = jsonpickle.encode(x, handle_readonly=True, **OPTS[o])
        want = jsonpickle.encode(twin, **OPTS[o])
        self.step()
        self.step()
        self.state(text)
        what = f"{form} {dict(zip(NAMES, kinds))} holding {dict(zip(NAMES, values))} with {OPTS[o]}"
        if text != want:
            raise Violation(f"{what} is encoded as {text}\n  instead of {want}")
        if snap(attributes(x)) != before:
            raise Violation(f"{what}: encoding changed it: {first_difference(before, snap(attributes(x)))}")
        if not OPTS[o].get("unpicklable", True):
            return
        y = jsonpickle.decode(text, handle_readonly=True, keys=OPTS[o].get("keys", False))
        self.step()
        if type(y) is not cls:
            raise Violation(f"{what}: {text} decodes to {y!r}")
        if OPTS[o].get("make_refs", True) and snap(attributes(y)) != snap(attributes(twin)):
            raise Violation(f"{what}: {text} decodes differently: {first_difference(snap(attributes(twin)), snap(attributes(y)))}")

    def run_derived(self, name, v, enc, place):
        x = getattr(MODULE, name)(v)
        opts = {"handle_readonly": True} if enc else {}
        s = [1]
        root = [x, [s, x, s], {"size": x, "html": s, "b": s}, Other(size=x, half=s)][place]
        try:
            text = jsonpickle.encode(root, **opts)
            y = jsonpickle.decode(text, handle_readonly=True)
        except Exception as e:  # noqa: BLE001
            raise Violation(f"{name}({v!r}) at place {place} with {opts} on encoding: {e!r}") from e
        self.step()
        self.step()
        self.state(text)
        if snap(y) != snap(root):
            raise Violation(f"{name}({v!r}) at place {place} with {opts}: {text} decodes differently: {first_difference(snap(root), snap(y))}")


CHECK = C36
