"""Classes with a _jsonpickle_exclude list, importable as mc.exclude_zoo.<name>."""

import collections
import dataclasses
import sys
import typing

HERE = sys.modules[__name__]
NAMES = ("a", "b", "c")
T = typing.TypeVar("T")


class Other:
    """An unrelated class with the same attribute names."""


class OtherDict(dict):
    pass


def _getstate(self):
    return {k: v for k, v in self.__dict__.items()}


def _slot_state(self):
    return {k: getattr(self, k) for k in (*NAMES, "k") if hasattr(self, k)}


def _setstate(self, state):
    for k, v in state.items():
        setattr(self, k, v)


def _new(cls, *args, **kw):
    return object.__new__(cls)


def _prop(name):
    return property(lambda self: "PROP-" + name)


# kind -> (bases, namespace of the last class, namespace of a base class or None)
SLOTS = ("a", "b", "c", "k")
KINDS = {
    "plain": ((), {}, None),
    "child": ((), {}, {}),
    "slots": ((), {"__slots__": SLOTS}, None),
    "slotlist": ((), {"__slots__": list(SLOTS)}, None),
    "slotsbase": ((), {"__slots__": ("a", "k")}, {"__slots__": ("b", "c")}),
    "slotsonly_base": ((), {"__slots__": ()}, {"__slots__": SLOTS}),
    "mixed": ((), {}, {"__slots__": ("a", "b")}),
    "mixed2": ((), {"__slots__": ("a", "__dict__")}, None),
    "slotschild": ((), {"__slots__": ("a", "b")}, {}),
    "dict": ((dict,), {}, None),
    "dictchild": ((dict,), {}, {}),
    "ordered": ((collections.OrderedDict,), {}, None),
    "default": ((collections.defaultdict,), {}, None),
    "counter": ((collections.Counter,), {}, None),
    "userdict": ((collections.UserDict,), {}, None),
    "list": ((list,), {}, None),
    "listchild": ((list,), {}, {}),
    "set": ((set,), {}, None),
    "getstate": ((), {"__getstate__": _getstate}, None),
    "getsetstate": ((), {"__getstate__": _getstate, "__setstate__": _setstate}, None),
    "getbase": ((), {}, {"__getstate__": _getstate, "__setstate__": _setstate}),
    "slotstate": ((), {"__slots__": SLOTS, "__getstate__": _slot_state, "__setstate__": _setstate}, None),
    "newargs": ((), {"__new__": _new, "__getnewargs__": lambda self: (1,)}, None),
    "newargsex": ((), {"__new__": _new, "__getnewargs_ex__": lambda self: ((1,), {"z": 2})}, None),
    "defaults": ((), {"a": "DEFAULT-a", "b": None, "c": ()}, None),
    "props": ((), {"d": _prop("d")}, None),
    "slotprops": ((), {"__slots__": SLOTS, "d": _prop("d")}, None),
    "getattr": ((), {"__getattr__": lambda self, n: (_ for _ in ()).throw(AttributeError(n))}, None),
    "generic": ((typing.Generic[T],), {}, None),
    "dataclass": ((), "dataclass", None),
    "dataslots": ((), "dataslots", None),
    "eq": ((), {"__eq__": lambda self, o: True, "__hash__": None}, None),
    "private": ((), {}, None),
    "privslots": ((), {"__slots__": ("__a", "__b", "c", "k")}, None),
    "privbase": ((), {}, {"__slots__": ("__a", "__b")}),
    "privslotsbase": ((), {"__slots__": ("c", "k")}, {"__slots__": ("__a", "__b")}),
}
PRIVATE = ("private", "privslots", "privbase", "privslotsbase")
INHERITED = ("privbase", "privslotsbase")  # the private names belong to the base class
# where the list of names is declared
DECLS = ("own", "base", "tuple", "set", "instance", "override", "sibling", "property")


def cls_for(kind, decl, names):
    """Returns (class, owner of private names), or None if there is no such class."""
    bases, ns, base_ns = KINDS[kind]
    label = f"X_{kind}_{decl}_{''.join(n.replace('_', 'u') for n in names)}"
    found = HERE.__dict__.get(label)
    if found is not None:
        return found, HERE.__dict__[label + "_base"] if kind in INHERITED else found
    special = ns if isinstance(ns, str) else None
    ns = {} if special else dict(ns)
    if special:
        ns["__annotations__"] = {n: object for n in ("a", "b", "c", "k")}
    base_ns = None if base_ns is None else dict(base_ns)
    if decl in ("base", "override"):
        if base_ns is None:
            base_ns = {"__slots__": ()} if "__slots__" in ns or special else {}
        base_ns["_jsonpickle_exclude"] = list(names) if decl == "base" else ["k"]
    if decl in ("own", "override"):
        ns["_jsonpickle_exclude"] = list(names)
    elif decl == "tuple":
        ns["_jsonpickle_exclude"] = tuple(names)
    elif decl == "set":
        ns["_jsonpickle_exclude"] = set(names)
    elif decl == "property":
        ns["_jsonpickle_exclude"] = property(lambda self: list(names))
    elif decl == "sibling":
        # declared by the second base class
        mixin = type("Mixin", (), {"_jsonpickle_exclude": list(names), "__slots__": ()})
        bases = bases + (mixin,)
    if base_ns is not None:
        name = label + "_base"
        base = _make(name, bases, base_ns, None)
        setattr(HERE, name, base)
        bases = (base,)
    cls = _make(label, bases, ns, special)
    setattr(HERE, label, cls)
    return cls, HERE.__dict__[label + "_base"] if kind in INHERITED else cls


def _make(name, bases, ns, special):
    # the compiler mangles the private names of a class body, and so does type()
    import types

    cls = types.new_class(name, bases, {}, lambda d: d.update(ns, __module__=__name__, __qualname__=name))
    if special == "dataclass":
        return dataclasses.dataclass(cls, init=False)
    if special == "dataslots":
        return dataclasses.dataclass(cls, init=False, slots=True)
    return cls
