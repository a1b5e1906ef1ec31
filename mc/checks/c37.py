"""C37: the operators that classes define play no part in encoding and decoding."""

import itertools
import sys

import jsonpickle

from .. import zoo
from ..core import Check, Violation

MODULE = sys.modules[__name__]


class Consulted(Exception):
    pass


def always(value):
    return lambda self, *args, **kw: value


LIES = {
    "__eq__": always(True), "__ne__": always(False), "__lt__": always(True), "__le__": always(True), "__gt__": always(True), "__ge__": always(True),
    "__hash__": always(0), "__bool__": always(False), "__len__": always(0), "__repr__": always(""), "__str__": always("x"),
    "__format__": always("f"), "__contains__": always(True), "__call__": lambda self, *a, **k: self, "__getitem__": lambda self, *a: self,
    "__setitem__": always(None), "__delitem__": always(None), "__delattr__": always(None), "__dir__": always(["zz", "join"]), "__int__": always(5),
    "__index__": always(5), "__float__": always(1.5), "__complex__": always(1j), "__bytes__": always(b"q"), "__fspath__": always("/x"),
    "__get__": lambda self, *a: self, "__copy__": lambda self: self, "__deepcopy__": lambda self, memo: self, "__sizeof__": always(0),
    "__length_hint__": always(0), "__reversed__": always(iter(())), "__missing__": always(1), "__array__": always(None), "__round__": always(0),
    "__add__": lambda self, o: self, "__radd__": lambda self, o: self, "__iadd__": lambda self, o: self, "__or__": lambda self, o: self, "__ior__": lambda self, o: self,
    "__enter__": lambda self: self, "__instancecheck__": always(True), "__init__": lambda self, *a, **k: None, "__await__": always(iter(())), "__aiter__": lambda self: self,
    "__iter__": lambda self: iter(()), "__set_name__": always(None), "__del__": always(None),
}
ANYTHING = {
    "none": always(None), "self": lambda self, name: self, "function": lambda self, name: always(None), "number": always(5),
}
META = ["__ne__", "__bool__", "__len__", "__repr__", "__str__", "__contains__", "__getitem__", "__call__", "__instancecheck__", "__subclasscheck__", "__iter__", "__dir__", "__lt__"]
BASES = {"plain": (), "list": (list,), "dict": (dict,), "set": (set,), "tuple": (tuple,), "str": (str,), "int": (int,), "float": (float,), "bytes": (bytes,), "error": (Exception,)}
# what a container is filled with, read and written by
NEEDED = {
    "list": {"__iter__"}, "tuple": {"__iter__"}, "set": {"__iter__", "__init__"}, "dict": {"__iter__", "__setitem__"},
    "error": {"__init__"},
}
FORMS = {
    "attrs": {},
    "slots": {"__slots__": ("x", "y")},
    "state": {"__getstate__": lambda s: {"x": s.__dict__["x"], "y": s.__dict__["y"]}, "__setstate__": lambda s, v: s.__dict__.update(v)},
    "state_only": {"__getstate__": lambda s: {"x": s.__dict__["x"], "y": s.__dict__["y"]}},
    "reduce": {"__reduce__": lambda s: (type(s), (), {"x": s.__dict__["x"], "y": s.__dict__["y"]})},
    "newargs": {"__getnewargs__": lambda s: ()},
}
CONTENTS = {"list": [1, "b"], "dict": {"k": 1, "l": "b"}, "set": {3}, "tuple": (4, "c"), "str": "pqr", "int": 7, "float": 2.5, "bytes": b"by"}


def combines(base, form):
    if form == "slots":
        return base == "plain"
    if base in ("list", "dict", "set"):
        return form == "attrs"  # the contents are not stored with the other forms
    if form in ("reduce", "newargs"):
        return base in ("plain", "error") if form == "reduce" else base == "plain"
    return True


def raising(name):
    def method(self, *args, **kw):
        raise Consulted(name)

    return method


def behaviours(base, form):
    """The sets of methods a class gets, by name."""
    names = [n for n in LIES if n not in NEEDED.get(base, ())]
    if form in ("reduce",):
        names.remove("__init__") if "__init__" in names else None
    out = {"usual": {}}
    for n in names:
        out["lies:" + n] = {n: LIES[n]}
        if n not in ("__del__", "__set_name__"):
            out["raises:" + n] = {n: raising(n)}
    out["unhashable"] = {"__hash__": None}
    out["lies"] = {n: LIES[n] for n in names if n != "__get__"}
    out["raises"] = {n: raising(n) for n in names if n not in ("__del__", "__set_name__", "__get__", "__call__")}
    # answering to every name makes an object look like a list, a set or one with a setter of its state
    if form in ("attrs", "state", "newargs") and base not in ("set", "error"):
        for n, f in ANYTHING.items():
            if base == "dict" and n in ("function", "self"):
                continue  # taken for a factory of missing values
            out["any:" + n] = {"__getattr__": f}
    return out


def pairs(base, form):
    single = {k: v for k, v in behaviours(base, form).items() if ":" in k}
    for a, b in itertools.combinations(single, 2):
        if set(single[a]) & set(single[b]) or {"raises:__repr__"} & {a, b} and {"raises:__call__", "lies:__call__"} & {a, b}:
            continue  # a callable can be a function of Cython, which is known by its text only
        if "any:" not in a + b or ("__get__" not in a + b and "__iter__" not in a + b):
            yield f"{a}+{b}", {**single[a], **single[b]}


def metas():
    for n in META:
        if n not in ("__ne__", "__repr__", "__bool__", "__len__"):
            yield "raises:" + n, {n: raising(n)}
        yield "lies:" + n, {n: LIES.get(n, always(True))}
    # comparing classes is what dictionaries of classes do
    yield "own", {"__eq__": lambda c, o: c is o, "__hash__": lambda c: 1}


def get(base, form, name, body, meta=type):
    """The class, the same one every time, under an importable name."""
    full = f"K_{base}_{form}_{name}".replace(":", "_").replace("+", "_and_")
    if not hasattr(MODULE, full):
        cls = meta(full, BASES[base], {"__module__": __name__, **FORMS[form], **body})
        setattr(MODULE, full, cls)
    return getattr(MODULE, full)


def create(cls, base, shared, other):
    x = cls.__new__(cls, *([CONTENTS[base]] if base in ("tuple", "str", "int", "float", "bytes") else []))
    if base in ("list",):
        list.extend(x, CONTENTS[base])
    elif base == "dict":
        dict.update(x, CONTENTS[base])
    elif base == "set":
        set.update(x, CONTENTS[base])
    object.__setattr__(x, "x", shared)
    object.__setattr__(x, "y", other)
    return x


def attr(x, name):
    try:
        return object.__getattribute__(x, name)
    except AttributeError:
        return "missing"


def contents(x, base):
    if base in ("plain", "error"):
        return None
    t = BASES[base][0]
    return (sorted if base == "set" else lambda v: v)({"list": lambda: list(list.__iter__(x)), "dict": lambda: dict(dict.items(x)), "set": lambda: list(set.__iter__(x)),
            "tuple": lambda: tuple(tuple.__iter__(x)), "str": lambda: str.__str__(x), "int": lambda: int.__int__(x), "float": lambda: float.__float__(x),
            "bytes": lambda: bytes(bytes.__iter__(x))}[t.__name__]())


class Built:
    """Known only after what is inside it has been restored."""

    def __init__(self, inner):
        self.inner = inner

    def __reduce__(self):
        return (Built, (self.inner,))


def own_cycle(cls, base):
    x = create(cls, base, None, None)
    object.__setattr__(x, "x", x)
    object.__setattr__(x, "y", [x])
    return x


def late_cycle(cls, base):
    x = create(cls, base, None, None)
    b = Built([x])
    object.__setattr__(x, "x", b)
    object.__setattr__(x, "y", [b])
    return b


CYCLES = [own_cycle, late_cycle]


class Holder:
    pass


def held(x, y, s):
    h = Holder()
    h.first, h.second, h.s = x, y, s
    return h


PLACES = {
    "list": (lambda x, y, s: [s, x, y, x, s], lambda r: (r[1], r[2], r[3], r[4])),
    "dict": (lambda x, y, s: {"a": x, "b": y, "c": x, "s": s}, lambda r: (r["a"], r["b"], r["c"], r["s"])),
    "attr": (held, lambda r: (r.first, r.second, r.first, r.s)),
    "tuple": (lambda x, y, s: (x, (y, x), s), lambda r: (r[0], r[1][0], r[1][1], r[2])),
}
OPTS = [{}, {"keys": True}, {"make_refs": False}, {"unpicklable": False}, {"warn": True}, {"fail_safe": repr}, {"max_iter": 2}, {"max_depth": 9}]


class C37(Check):
    id = "C37"
    technique = "exhaustive enumeration of classes with methods that raise or mislead, compared with the class without these methods"
    rule = "every method alone, raising and misleading, all of them together, and every metaclass method, for every kind and form of class at every place under every option set"

    @property
    def bounds(self):
        return {"methods": len(LIES), "metaclass methods": len(META), "kinds": len(BASES), "forms": len(FORMS), "places": len(PLACES), "options": len(OPTS),
                "methods together": 2 if self.thorough else "1, 2 for plain classes, all"}

    def cases(self):
        for base, form in itertools.product(BASES, FORMS):
            if not combines(base, form):
                continue
            for name in behaviours(base, form):
                for place in PLACES:
                    for o in range(len(OPTS)):
                        yield ("class", base, form, name, place, o)
            for name, _ in metas():
                if "__call__" in name and (base == "error" or form == "reduce"):
                    continue  # restored by calling the class
                for place in PLACES:
                    for o in range(4):
                        yield ("meta", base, form, name, place, o)
            for name in behaviours(base, form):
                for i in range(len(CYCLES)):
                    yield ("cycle", base, form, name, i, 0)
            if self.thorough or (base == "plain" and form in ("attrs", "state")):
                for name, _ in pairs(base, form):
                    yield ("pair", base, form, name, "list", 0)

    def setup(self):
        self.pairs = {}
        self.metas = {}
        for n, body in metas():
            self.metas[n] = type("Meta_" + n.replace(":", "_"), (type,), body)

    def run_case(self, case):
        kind, base, form, name, place, o = case
        if kind == "cycle":
            return self.run_cycle(base, form, name, place)
        if kind == "class":
            cls = get(base, form, name, behaviours(base, form)[name])
        elif kind == "meta":
            cls = get(base, form, "meta_" + name, {}, self.metas[name])
        else:
            if (base, form) not in self.pairs:
                self.pairs[base, form] = dict(pairs(base, form))
            cls = get(base, form, name, self.pairs[base, form][name])
        plain = get(base, form, "usual", {})
        where = f"a {base} class ({form}) with {name} as {place} with {OPTS[o]}"
        build, take = PLACES[place]

        def graph(c):
            s, other = [1], zoo.Plain()
            other.a = s
            return build(create(c, base, s, other), create(c, base, [2], other), s)

        try:
            text = jsonpickle.encode(graph(cls), **OPTS[o])
        except Exception as e:  # noqa: BLE001
            raise Violation(f"{where} cannot be encoded: {e!r}") from e
        want = jsonpickle.encode(graph(plain), **OPTS[o]).replace(f"{__name__}.{plain.__name__}\"", f"{__name__}.{cls.__name__}\"")
        self.step(2)
        self.state(text)
        if text != want:
            raise Violation(f"{where} is encoded as {text}\n  instead of {want}")
        if not OPTS[o].get("unpicklable", True):
            return
        try:
            back = jsonpickle.decode(text, keys=OPTS[o].get("keys", False))
        except Exception as e:  # noqa: BLE001
            raise Violation(f"{where} cannot be decoded from {text}: {e!r}") from e
        self.step()
        x, y, x2, s = take(back)
        for z, c in ((x, [1]), (y, [2]), (x2, [1])):
            if type(z) is not cls:
                raise Violation(f"{where} decodes to {type(z).__name__}")
            if attr(z, "x") != c or type(attr(z, "y")) is not zoo.Plain or (base != "error" and contents(z, base) != (sorted if base == "set" else lambda v: v)(CONTENTS.get(base))):
                raise Violation(f"{where} decodes with other contents from {text}")
        if OPTS[o].get("make_refs", True):
            same = x is x2 and x is not y and attr(x, "x") is s and attr(x, "y") is attr(y, "y") and attr(x, "y").a is s
            if not same:
                raise Violation(f"{where}: the references decode differently from {text}")

    def run_cycle(self, base, form, name, i):
        """The object is reached again inside itself, or refers to one that is still being built."""
        cls = get(base, form, name, behaviours(base, form)[name])
        plain = get(base, form, "usual", {})
        if i and (form != "attrs" or base == "error"):
            return  # closing such a cycle is only claimed without state hooks
        where = f"a {base} class ({form}) with {name} in cycle {i}"
        try:
            text = jsonpickle.encode(CYCLES[i](cls, base))
            back = jsonpickle.decode(text)
        except Exception as e:  # noqa: BLE001
            raise Violation(f"{where} cannot be encoded and decoded: {e!r}") from e
        want = jsonpickle.encode(CYCLES[i](plain, base)).replace(f"{__name__}.{plain.__name__}\"", f"{__name__}.{cls.__name__}\"")
        self.step(3)
        self.state(text)
        if text != want:
            raise Violation(f"{where} is encoded as {text}\n  instead of {want}")
        if i == 0:
            ok = type(back) is cls and attr(back, "x") is back and attr(back, "y")[0] is back
        else:
            x = back.inner[0]
            ok = type(x) is cls and attr(x, "x") is back and attr(x, "y")[0] is back
        if not ok:
            raise Violation(f"{where}: the cycle decodes differently from {text}")


CHECK = C37
