"""C28: classes, functions and modules are stored by reference."""

import importlib
import itertools
import json
import sys
import types
import warnings

import jsonpickle

from .. import names, rt, zoo
from ..core import Check, Skip, Violation
from ..snap import first_difference, snap
from ..values import GROUPS, V

# modules that do something visible when they are imported
SKIP = {"antigravity", "this", "idlelib", "turtle", "turtledemo", "test", "lib2to3", "tkinter", "__main__", "site", "sitecustomize", "usercustomize"}
# submodules worth having
MORE = ["os.path", "collections.abc", "concurrent.futures", "concurrent.futures.thread", "email.mime.text", "email.message", "importlib.machinery", "importlib.util",
        "json.decoder", "json.encoder", "logging.handlers", "logging.config", "multiprocessing.pool", "unittest.mock", "unittest.case", "urllib.parse", "urllib.request",
        "urllib.error", "wsgiref.util", "xml.dom.minidom", "xml.etree.ElementTree", "xml.sax.handler", "http.client", "http.server", "http.cookies", "encodings.utf_8",
        "ctypes.util", "asyncio.events", "asyncio.tasks", "curses.ascii", "html.parser", "html.entities", "sqlite3.dbapi2", "importlib.metadata", "importlib.resources"]
FUNCTIONS = (types.FunctionType, types.BuiltinFunctionType)
CALLED = []


class Spy(type):
    """A class that notices when it is used as more than a name."""

    def __call__(cls, *args, **kw):
        CALLED.append("call")
        return super().__call__(*args, **kw)

    def __iter__(cls):
        CALLED.append("iter")
        return iter(())

    def __len__(cls):
        CALLED.append("len")
        return 0

    def __bool__(cls):
        CALLED.append("bool")
        return False


class Spied(metaclass=Spy):
    attr = [1]

    def __init__(self):
        CALLED.append("init")

    def method(self):
        CALLED.append("method")

    @staticmethod
    def static():
        CALLED.append("static")

    @classmethod
    def klass(cls):
        CALLED.append("klass")

    class Inner(metaclass=Spy):
        def deep(self):
            CALLED.append("deep")

        class Innermost(metaclass=Spy):
            @staticmethod
            def bottom():
                CALLED.append("bottom")


def function(*args, **kw):
    CALLED.append("function")


def _underscore():
    CALLED.append("_underscore")


async def coroutine():
    CALLED.append("coroutine")


def generator():
    CALLED.append("generator")
    yield 1


class Callable_:
    """An instance with a call, which is not a function."""

    def __init__(self):
        self.a = 1

    def __call__(self):
        CALLED.append("instance")

    def __eq__(self, other):
        return type(other) is type(self) and other.__dict__ == self.__dict__

    __hash__ = None


OWN = {
    "Spied": Spied, "Spied.method": Spied.method, "Spied.static": Spied.static, "Spied.Inner": Spied.Inner, "Spied.Inner.deep": Spied.Inner.deep,
    "Innermost": Spied.Inner.Innermost, "bottom": Spied.Inner.Innermost.bottom, "function": function, "_underscore": _underscore, "coroutine": coroutine,
    "generator": generator, "Spy": Spy,
}


def local_things():
    def nested():
        CALLED.append("nested")

    class Local:
        pass

    return nested, Local, Local()


def _cell():
    x = 1
    return (lambda: x).__closure__[0]


# things that cannot be rebuilt
LOST = {
    "lambda": lambda: lambda: 0,
    "lambda_default": lambda: lambda x=[1]: x,
    "named_lambda": lambda: zoo_lambda,
    "nested": lambda: local_things()[0],
    "local_class": lambda: local_things()[1],
    "local_instance": lambda: local_things()[2],
    "memoryview": lambda: memoryview(b"abc"),
    "code": lambda: function.__code__,
    "frame": lambda: sys._getframe(),
    "proxy": lambda: types.MappingProxyType({"a": [1]}),
    "cell": _cell,
    "generic": lambda: list[int],
    "union": lambda: int | str,
    "property": lambda: property(function),
    "file": lambda: sys.__stderr__,
    "bound_builtin": lambda: [].append,
    "wrapper": lambda: "".__len__,
    "class_descriptor": lambda: dict.__dict__["fromkeys"],
    "getset": lambda: types.FunctionType.__dict__["__code__"],
    "member": lambda: zoo.Slots.__dict__["a"],
    "empty_generator": lambda: (x for x in ()),
}
LEFT_OUT = {"lambda", "lambda_default", "named_lambda"}
zoo_lambda = lambda: 0  # noqa: E731

PY2 = ["__builtin__", "exceptions", "builtins"]
OPTIONS = [{}, {"keys": True}, {"make_refs": False}, {"numeric_keys": True}, {"warn": True}, {"use_base85": True}, {"max_depth": 30}, {"handle_readonly": True}, {"fail_safe": repr}]
METHODS = ["plain", "data", "listsub", "getset", "nested", "class", "inherited"]


class Methods(zoo.Plain):
    def method(self):
        CALLED.append("m")

    def other(self):
        CALLED.append("o")

    @classmethod
    def make(cls):
        CALLED.append("c")


class MethodsChild(Methods):
    pass


class MethodsList(list):
    def method(self):
        CALLED.append("m")


class MethodsState(zoo.GetSet):
    def method(self):
        CALLED.append("m")

    def __eq__(self, other):
        return type(self) is type(other) and self.__dict__ == other.__dict__

    __hash__ = None


def by_name(obj):
    """Is this what one gets for its module and name?"""
    try:
        x = sys.modules[obj.__module__]
        for part in obj.__qualname__.split("."):
            x = getattr(x, part)
        return x is obj
    except (AttributeError, KeyError, TypeError):
        return False


for _m in (names, names.classes, names.same, names.hidden_module, names.last):
    _short = _m.__name__.partition(".")[2]
    OWN["module " + _short] = _m
    _walk = [(_short, _m)]
    while _walk:
        _path, _owner = _walk.pop()
        for _n, _x in sorted(vars(_owner).items()):
            if isinstance(_x, type) and _n != "__class__" or isinstance(_x, types.FunctionType):
                if by_name(_x):
                    OWN[f"{_path}.{_n}"] = _x
                if isinstance(_x, type):
                    _walk.append((f"{_path}.{_n}", _x))
            elif isinstance(_x, staticmethod):
                OWN[f"{_path}.{_n}"] = _x.__func__
for _m in ("deep", "deep.deeper", "deep.deeper.deepest", "deep.deeper.deepest.bottom"):
    OWN["module " + _m] = sys.modules["mc.names." + _m]


def standard_library():
    """{key: object} for all classes, functions and modules that have a name."""
    found, seen = {}, set()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for name in [*sorted(sys.stdlib_module_names), *MORE]:
            if name in SKIP or name.startswith(("_test", "_xx", "xx")):
                continue
            try:
                module = importlib.import_module(name)
            except Exception:  # noqa: BLE001
                continue  # not part of this installation
            if sys.modules.get(module.__name__) is module:
                found[name] = module
            for attr, obj in sorted(vars(module).items()):
                add(found, seen, f"{name}:{attr}", obj)
                if isinstance(obj, type) and obj.__module__ == module.__name__:
                    for sub, inner in sorted(vars(obj).items()):
                        if isinstance(inner, (type, types.FunctionType)) and not isinstance(inner, types.GenericAlias):
                            add(found, seen, f"{name}:{attr}.{sub}", inner)
                        elif isinstance(inner, staticmethod):
                            add(found, seen, f"{name}:{attr}.{sub}", inner.__func__)
    return found


def add(found, seen, key, obj):
    if id(obj) in seen or not isinstance(obj, (type, *FUNCTIONS)) or isinstance(obj, types.GenericAlias) or getattr(obj, "__name__", "<") == "<lambda>":
        return
    if by_name(obj):
        seen.add(id(obj))
        found[key] = obj


class C28(Check):
    id = "C28"
    technique = "exhaustive enumeration of the importable names of the standard library, places and options; every decoded reference is compared by identity"
    rule = "every combination within the bound; a state is a distinct encoded text"

    @property
    def bounds(self):
        return {"names": len(self.library), "places": len(rt.CONTEXTS), "option sets": len(OPTIONS), "things that cannot be stored": len(LOST)}

    def __init__(self, tier="quick"):
        super().__init__(tier)
        self.library = standard_library()

    def cases(self):
        for n in self.library:
            for c in rt.CONTEXTS:
                yield ("library", n, c, 0)
            for o in range(1, len(OPTIONS)):
                yield ("library", n, "shared", o)
        for n, c, o in itertools.product(OWN, rt.CONTEXTS, range(len(OPTIONS))):
            yield ("own", n, c, o)
        for n, m in itertools.product(OWN, repeat=2):
            for o in range(len(OPTIONS)):
                yield ("two", n, m, o)
        for old, n in itertools.product(PY2, sorted(vars(__import__("builtins")))):
            for tag in ("py/type", "py/function", "py/object"):
                yield ("old", old, n, tag)
        for n, o, p in itertools.product(LOST, range(len(OPTIONS)), range(10)):
            yield ("lost", n, o, p)
        for n, m in itertools.product(LOST, repeat=2):
            for p in range(10):
                yield ("lost2", n, m, p)
        for n, v in itertools.product(LOST, [n for g, ns in GROUPS.items() if g not in ("opaque", "null_stored") for n in ns]):
            yield ("beside", n, v)
        for k, o, p in itertools.product(METHODS, range(len(OPTIONS)), range(5)):
            yield ("method", k, o, p)

    def run_case(self, case):
        del CALLED[:]
        getattr(self, "run_" + case[0])(*case[1:])
        if CALLED:
            raise Violation(f"called: {CALLED}")

    def run_library(self, name, context, o):
        self.reference(self.library[name], context, OPTIONS[o])

    def run_own(self, name, context, o):
        self.reference(OWN[name], context, OPTIONS[o])

    def reference(self, obj, context, opts):
        value = rt.CONTEXTS[context](lambda: obj)
        opts = dict(opts)
        text = jsonpickle.encode(value, **opts)
        self.step()
        self.state(text)
        back = jsonpickle.decode(text, **rt.dec_opts(opts))
        self.step()
        identity = opts.get("make_refs", True)
        a, b = snap(value, identity=identity), snap(back, identity=identity)
        if a != b:
            raise Violation(f"{first_difference(a, b)}, options {opts}, text {text[:300]}")
        if context == "bare" and back is not obj:
            raise Violation(f"{obj!r} became {back!r}, text {text}")
        if context == "bare":
            doc = json.loads(text)
            tag = "py/mod" if isinstance(obj, types.ModuleType) else "py/type" if isinstance(obj, type) else "py/function"
            if list(doc) != [tag]:
                raise Violation(f"{obj!r} was written as {text[:300]}")

    def run_two(self, n, m, o):
        s = [7]
        value = {"a": [OWN[n], s, OWN[m]], "b": (OWN[m], s), "c": OWN[n], "d": s}
        opts = OPTIONS[o]
        text = jsonpickle.encode(value, **opts)
        back = jsonpickle.decode(text, **rt.dec_opts(opts))
        self.step(2)
        self.state(text)
        identity = opts.get("make_refs", True)
        a, b = snap(value, identity=identity), snap(back, identity=identity)
        if a != b:
            raise Violation(f"{first_difference(a, b)}, options {opts}, text {text[:300]}")

    def run_old(self, old, name, tag):
        """Names as Python 2 wrote them."""
        obj = vars(__import__("builtins"))[name]
        s = {"py/id": 1}
        if tag == "py/object":
            if not (isinstance(obj, type) and issubclass(obj, Exception)) or issubclass(obj, (UnicodeError, BaseExceptionGroup)):
                raise Skip
            doc = [{tag: f"{old}.{name}", "x": 1}, [5], {"py/id": 2}]
        else:
            if not isinstance(obj, type if tag == "py/type" else types.BuiltinFunctionType) or obj.__module__ != "builtins":
                raise Skip
            doc = [{tag: f"{old}.{name}"}, [5], s]
        text = json.dumps(doc)
        self.state(text)
        back = jsonpickle.decode(text)
        self.step()
        if tag != "py/object":
            if back[0] is not obj:
                raise Violation(f"{text} gave {back[0]!r}")
        elif type(back[0]) is not obj:
            raise Violation(f"{text} gave {back[0]!r}")
        if back[1] != [5] or back[2] is not back[1]:
            raise Violation(f"{text} gave {back!r}")

    def holder(self, p, things, s):
        """A value with the things between other objects, and where the others are."""
        if p == 0:
            return [s, *things, s, [s]], lambda b: [b[0], b[-2], b[-1][0]]
        if p == 1:
            return {"a": s, **{f"t{i}": t for i, t in enumerate(things)}, "b": s, "c": [s]}, lambda b: [b["a"], b["b"], b["c"][0]]
        if p == 2:
            o = zoo.Plain()
            o.a = s
            for i, t in enumerate(things):
                setattr(o, f"t{i}", t)
            o.b, o.c = s, [s]
            return o, lambda b: [b.a, b.b, b.c[0]]
        if p == 3:
            return [*things, s, s, [s]], lambda b: [b[-3], b[-2], b[-1][0]]
        if p == 4:
            return (s, tuple(things), [s], s), lambda b: [b[0], b[-1], b[-2][0]]
        if p == 5:
            return zoo.DictSub({**{f"t{i}": t for i, t in enumerate(things)}, "a": s, "b": s}), lambda b: [b["a"], b["b"]]
        if p == 6:
            o = zoo.ListSub([*things, s, s])
            o.x = s
            return o, lambda b: [b.x, b[-1], b[-2]]
        if p == 7:
            o = zoo.Slots()
            o.a = things[0]
            o.b = [s, things[-1], s]
            return [o, s], lambda b: [b[1], b[0].b[0], b[0].b[2]]
        if p == 8:
            return [[{"x": [list(things)]}], s, {"y": s}], lambda b: [b[1], b[2]["y"]]
        o = zoo.GetSet()
        o.a, o.b = [*things, s], s
        return [o, s], lambda b: [b[1], b[0].b, b[0].a[-1]]

    def run_lost(self, name, o, p):
        self.neighbours([LOST[name]()], [name], OPTIONS[o], p, [7, "x"])

    def run_lost2(self, n, m, p):
        self.neighbours([LOST[n](), LOST[m]()], [n, m], {}, p, [7, "x"])

    def run_beside(self, n, v):
        for p in (0, 2):
            self.neighbours([LOST[n]()], [n], {}, p, [V[v]()])

    def neighbours(self, things, names, opts, p, s):
        if opts.get("handle_readonly") and set(names) & {"frame", "generic"}:
            raise Skip
        value, others = self.holder(p, things, s)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            text = jsonpickle.encode(value, **opts)
            self.step()
            back = jsonpickle.decode(text, **rt.dec_opts(opts))
        self.step()
        want = [s] * len(others(value))
        try:
            got = others(back)
        except (LookupError, AttributeError, TypeError) as e:
            raise Violation(f"{e!r}, options {opts}, text {text[:400]}") from None
        identity = opts.get("make_refs", True)
        a, b = snap(want, identity=identity), snap(got, identity=identity)
        if a != b:
            raise Violation(f"the neighbours of {names}: {first_difference(a, b)}, options {opts}, text {text[:400]}")
        for i, n in enumerate(names):
            if n not in LEFT_OUT:
                continue
            if p == 0 and back[1 + i] is not None:
                raise Violation(f"{n} in a list became {back[1 + i]!r}")
            if p in (1, 5) and f"t{i}" in back:
                raise Violation(f"{n} in a dictionary became {back[f't{i}']!r}")
            if p == 2 and hasattr(back, f"t{i}"):
                raise Violation(f"{n} in an attribute became {getattr(back, f't{i}')!r}")

    def run_method(self, kind, o, p):
        opts = OPTIONS[o]
        if kind == "class":
            method = Methods.make
        else:
            obj = {"plain": Methods, "data": Methods, "listsub": MethodsList, "getset": MethodsState, "nested": Methods, "inherited": MethodsChild}[kind]()
            if kind == "data":
                obj.a = {"x": [1, (2,)]}
            if kind == "nested":
                obj.child = Methods()
                obj.child.b = 1
            if kind == "listsub":
                obj.extend([1, [2]])
            if kind == "getset":
                obj.a, obj.b = 1, [2]
            method = obj.method
        s = [8]
        owner = method.__self__
        value = [[method, s, s], [s, owner, method, owner, s], (method, s, [s]), [[method], [method], s, s], [s, [method, [owner]], s]][p]
        text = jsonpickle.encode(value, **opts)
        self.step()
        self.state(text)
        back = jsonpickle.decode(text, **rt.dec_opts(opts))
        self.step()
        identity = opts.get("make_refs", True)
        a, b = snap(value, identity=identity), snap(back, identity=identity)
        if a != b:
            raise Violation(f"{first_difference(a, b)}, options {opts}, text {text[:400]}")


CHECK = C28
