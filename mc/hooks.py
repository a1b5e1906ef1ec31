"""Classes with every combination of the pickle hooks, importable as mc.hooks.<name>.

The specification of a class is part of its name, so a case is just the spec.
"""

import copyreg
import sys

HERE = sys.modules[__name__]
SHARED = [None]

STATES = {
    "none": lambda o: None,
    "empty": lambda o: {},
    "dict": lambda o: {"a": 1, "b": SHARED[0]},
    "slots": lambda o: (None, {"a": 1, "b": SHARED[0]}),
    "both": lambda o: ({"d": SHARED[0]}, {"a": 1}),
    "list": lambda o: [1, SHARED[0]],
    "list1": lambda o: [SHARED[0]],
    "tuple": lambda o: (1, SHARED[0], "x"),
    "pair": lambda o: (1, SHARED[0]),
    "etuple": lambda o: (),
    "elist": lambda o: [],
    "zero": lambda o: 0,
    "int": lambda o: 5,
    "str": lambda o: "text",
    "estr": lambda o: "",
    "false": lambda o: False,
    "true": lambda o: True,
    "bytes": lambda o: b"\x00\xff",
    "set": lambda o: {1, 2},
    "float": lambda o: 0.5,
    "nested": lambda o: {"a": {"b": [SHARED[0], SHARED[0]]}, "t": (1, [2])},
}
FALSY = {"none", "empty", "etuple", "elist", "zero", "estr", "false"}
ARGS = {
    "0": lambda: (),
    "1": lambda: (1,),
    "2": lambda: (SHARED[0], "x"),
    "falsy": lambda: (0, None, "", [], ()),
    "nest": lambda: ((1, SHARED[0]), {"k": [2]}),
}


class Root:
    """Everything the hooks of the generated classes do is visible in the attributes."""

    def __init__(self, *args):
        self.init_args = args


def function(*args):
    o = object.__new__(CURRENT["cls"])
    o.function_args = args
    return o


CURRENT = {}
CLASSES = {}


def by_name(name):
    """The constructing function of one class (a module level function by that name)."""
    return CLASSES[name]


def setter(obj, state):
    obj.setter_state = state


def setter_list(obj, state):
    obj.setter_list = list(state) if isinstance(state, list) else state


def reduce_class(spec):
    """spec: (how, f, args, state, setstate, items, dictitems, setter)"""
    name = "R_" + "_".join(map(str, spec))
    if name in HERE.__dict__:
        return HERE.__dict__[name]
    how, f, args, state, setstate, items, dictitems, set_ = spec

    def make(self):
        cls = type(self)
        a = ARGS[args]()
        if f == "class":
            head = (cls, a)
        elif f == "func":
            head = (getattr(HERE, "make_" + name), a)
        elif f == "newobj":
            head = (copyreg.__newobj__, (cls, *a))
        elif f == "static":
            head = (cls.rebuild, a)
        out = head + (
            STATES[state](self) if state != "absent" else None,
            iter([1, SHARED[0]]) if items == "two" else iter(()) if items == "zero" else None,
            iter([("k", 1), (5, SHARED[0])]) if dictitems == "two" else iter(()) if dictitems == "zero" else None,
            {"none": None, "setter": setter, "list": setter_list}[set_],
        )
        while len(out) > 2 and out[-1] is None and (len(out) > 3 or state == "absent"):
            out = out[:-1]
        return out

    ns = {"__module__": __name__, "__qualname__": name}
    if how == "reduce":
        ns["__reduce__"] = make
    elif how == "reduce_ex":
        ns["__reduce_ex__"] = lambda self, protocol: make(self)
    else:
        ns["__reduce__"] = lambda self: 1 / 0
        ns["__reduce_ex__"] = lambda self, protocol: make(self)
    if setstate:
        ns["__setstate__"] = lambda self, s: self.__dict__.__setitem__("setstate", s)
    ns["append"] = lambda self, x: self.__dict__.setdefault("items", []).append(x)
    ns["extend"] = lambda self, xs: self.__dict__.setdefault("items", []).extend(xs)
    ns["__setitem__"] = lambda self, k, v: self.__dict__.setdefault("pairs", []).append((k, v))
    ns["__new__"] = lambda cls, *a: new(cls, a)
    ns["rebuild"] = classmethod(lambda cls, *a: new(cls, ("rebuilt", *a)))
    cls = type(name, (Root,), ns)
    setattr(HERE, name, cls)

    def build(*a):
        return new(cls, ("function", *a))

    build.__name__ = build.__qualname__ = "make_" + name
    build.__module__ = __name__
    setattr(HERE, "make_" + name, build)
    return cls


def new(cls, args):
    o = object.__new__(cls)
    o.__dict__["new_args"] = args
    return o


def state_class(spec):
    """spec: (getstate, setstate, newargs, slots)

    getstate: a state or 'absent'; newargs: '', 'args:<a>' or 'ex:<a>'
    """
    name = "S_" + "_".join(map(str, spec)).replace(":", "_")
    if name in HERE.__dict__:
        return HERE.__dict__[name]
    getstate, setstate, newargs, slots = spec
    ns = {"__module__": __name__, "__qualname__": name}
    if slots == "slots":
        ns["__slots__"] = ("a", "b", "got", "new_args")
    elif slots == "mixed":
        ns["__slots__"] = ("m", "__dict__")
    if getstate != "absent":
        ns["__getstate__"] = lambda self: STATES[getstate](self)
    if setstate:
        ns["__setstate__"] = lambda self, s: setattr(self, "got", s)
    if newargs.startswith("args:"):
        a = newargs[5:]
        ns["__getnewargs__"] = lambda self: ARGS[a]()
    elif newargs.startswith("ex:"):
        a = newargs[3:]
        ns["__getnewargs_ex__"] = lambda self: (ARGS[a](), {"kw": SHARED[0], "n": None})
    if newargs:

        def make(cls, *args, **kw):
            o = object.__new__(cls)
            o.new_args = (args, kw)
            return o

        ns["__new__"] = make
    cls = type(name, (), ns)
    setattr(HERE, name, cls)
    return cls
