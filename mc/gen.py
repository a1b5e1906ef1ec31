"""Systematically generated classes, importable as mc.gen.<name>.

A class shape is a builtin base and a chain of levels; each level adds slots,
an attribute dictionary, class level defaults or an initializer.
"""

import collections
import dataclasses
import itertools
import sys
import typing

HERE = sys.modules[__name__]

LEVELS = ("dict", "s0", "sa", "sb", "sab", "sp", "sd", "def", "init", "falsy", "eq")


def _init(self, *args):
    raise RuntimeError("the initializer must not be called")


def level_namespace(level, depth):
    n = "abc"[depth]
    return {
        "dict": lambda: {},  # an ordinary class: the instance gets a __dict__
        "s0": lambda: {"__slots__": ()},
        "sa": lambda: {"__slots__": n + "1"},  # one slot, given as a string
        "sb": lambda: {"__slots__": (n + "1",)},
        "sab": lambda: {"__slots__": [n + "2", "_" + n]},
        "sp": lambda: {"__slots__": ("__" + n, n + "1")},  # a name-mangled slot
        "sd": lambda: {"__slots__": ("__dict__", n + "1")},
        "def": lambda: {n + "1": "class level", "d": (), "__slots__": ("__dict__",)},
        "init": lambda: {"__init__": _init},
        "falsy": lambda: {"__bool__": lambda self: False, "__len__": lambda self: 0, "__slots__": ()},
        "eq": lambda: {"__eq__": lambda self, o: True, "__hash__": lambda self: 1, "__slots__": ()},
    }[level]()


BASES = {
    "object": object,
    "list": list,
    "dict": dict,
    "set": set,
    "tuple": tuple,
    "str": str,
    "Exception": Exception,
    "OrderedDict": collections.OrderedDict,
    "deque": collections.deque,
    "int": int,
    "float": float,
    "bytes": bytes,
    "frozenset": frozenset,
}

CONTENTS = {
    "object": [()],
    "list": [(), (1,), ("L", None)],
    "dict": [(), ("k",), ("k", "a1", "d")],
    "set": [(), (1,), (1, "x")],
    "frozenset": [(), (1,), (1, "x")],
    "tuple": [(), (1,), (1, "L")],
    "str": ["", "s", "é\n"],
    "int": [0, 7],
    "float": [0.0, 1.5],
    "bytes": [b"", b"x"],
    "Exception": [(), ("m",), ("m", "L")],
    "OrderedDict": [(), ("k",)],
    "deque": [(), (1, "L")],
}


def name_of(base, levels):
    return "G_" + base + "_" + "_".join(levels)


def make_class(base, levels):
    """Returns the class of that shape, or None if Python does not allow it."""
    cls = BASES[base]
    for depth, level in enumerate(levels):
        name = name_of(base, levels[: depth + 1])
        made = HERE.__dict__.get(name)
        if made is None:
            ns = dict(level_namespace(level, depth), __module__=__name__, __qualname__=name)
            try:
                made = type(name, (cls,), ns)
            except (TypeError, ValueError):
                return None
            setattr(HERE, name, made)
        cls = made
    return cls


def attribute_names(base, levels):
    """Settable attributes of an instance: own and inherited slots, then dictionary entries."""
    cls = make_class(base, levels)
    names = []
    for depth, level in enumerate(levels):
        n = "abc"[depth]
        owner = name_of(base, levels[: depth + 1])
        names += {
            "sa": [n + "1"],
            "sb": [n + "1"],
            "sab": [n + "2", "_" + n],
            "sp": [f"_{owner}__{n}", n + "1"],
            "sd": [n + "1"],
        }.get(level, [])
    blank = cls.__new__(cls)
    if hasattr(blank, "__dict__"):
        names += ["d", "_e"]
        if "def" in levels:
            names.append("abc"[levels.index("def")] + "1")
    return names


def instance(base, levels, contents, attrs, shared):
    cls = make_class(base, levels)
    items = [shared if c == "L" else c for c in contents] if isinstance(contents, tuple) else contents
    if base in ("tuple", "frozenset", "str", "int", "float", "bytes", "Exception"):
        o = cls.__new__(cls, *items) if base == "Exception" else cls.__new__(cls, items)
    else:
        o = cls.__new__(cls)
    if base in ("list", "deque"):
        if base == "deque":
            collections.deque.__init__(o)
        o.extend(items)
    elif base in ("dict", "OrderedDict"):
        for k in items:
            o[k] = [k]
    elif base == "set":
        o.update(items)
    for n, v in attrs:
        setattr(o, n, v)
    return o


# --- data classes -----------------------------------------------------------

FLAGS = ("frozen", "slots", "eq", "order", "unsafe_hash", "kw_only")


def make_dataclass(flags, child):
    opts = {f: True for f in flags}
    name = "D_" + "_".join(flags) + ("_child" if child else "")
    if name in HERE.__dict__:
        return HERE.__dict__[name]
    if "eq" not in flags:
        opts["eq"] = False
    bases = ()
    fields = [
        ("a", typing.Any),
        ("b", typing.Any, dataclasses.field(default_factory=list)),
        ("c", typing.Any, dataclasses.field(default=None, init=False)),
        ("k", typing.ClassVar[int], 5),
    ]
    if child:
        bases = (make_dataclass(flags, False),)
        fields = [("d", typing.Any, None)]
    try:
        cls = dataclasses.make_dataclass(name, fields, bases=bases, module=__name__, **opts)
    except (TypeError, ValueError):
        return None
    cls.__qualname__ = name
    setattr(HERE, name, cls)
    return cls


def dataclass_shapes():
    for n in range(len(FLAGS) + 1):
        for flags in itertools.combinations(FLAGS, n):
            if "order" in flags and "eq" not in flags:
                continue
            for child in (False, True):
                if make_dataclass(flags, child) is not None:
                    yield flags, child
