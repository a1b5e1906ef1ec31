"""C33: extension handlers come and go without a trace."""

import itertools
import zlib

import gmpy2
import numpy as np
import pandas as pd

import jsonpickle
import jsonpickle.ext.gmpy
import jsonpickle.ext.numpy
import jsonpickle.ext.pandas
import jsonpickle.ext.yaml
from jsonpickle import handlers

from .. import zoo
from ..core import Check, Violation


class Sub(np.ndarray):
    """An array class that may get a handler of its own."""


class SubHandler(handlers.BaseHandler):
    def flatten(self, obj, data):
        data["mine"] = obj.tolist()
        return data

    def restore(self, data):
        return np.array(data["mine"]).view(Sub)


class AnyHandler(handlers.BaseHandler):
    def flatten(self, obj, data):
        data["any"] = 1
        return data

    def restore(self, data):
        return zoo.Plain()


def sub():
    return np.arange(3).view(Sub)


NUMPY = {
    "ndarray": np.ndarray, "generic": np.generic, "dtype": np.dtype, "ufunc": np.ufunc, "datetime64": np.datetime64, "float64": np.float64, "int8": np.int8,
    "void": np.void, "str_": np.str_, "bool_": np.bool_, "timedelta64": np.timedelta64, "float32 dtype": type(np.dtype("f4")), "int32 dtype": type(np.dtype("i4")),
    "void dtype": type(np.dtype("V4")), "datetime dtype": type(np.dtype("M8[s]")), "object dtype": type(np.dtype("O")), "matrix": np.matrix,
    "recarray": np.recarray,
}
PANDAS = {
    "DataFrame": pd.DataFrame, "Series": pd.Series, "Index": pd.Index, "RangeIndex": pd.RangeIndex, "DatetimeIndex": pd.DatetimeIndex,
    "TimedeltaIndex": pd.TimedeltaIndex, "CategoricalIndex": pd.CategoricalIndex, "PeriodIndex": pd.PeriodIndex, "MultiIndex": pd.MultiIndex,
    "Timestamp": pd.Timestamp, "Period": pd.Period, "Interval": pd.Interval,
}
GMPY = {"mpz": type(gmpy2.mpz(1))}
OTHERS = {"list": list, "dict": dict, "Plain": zoo.Plain, "Handled": zoo.Handled, "Slots": zoo.Slots}

OPS = ["n+", "n4", "n0", "n-", "p+", "p-", "g+", "g-", "s+", "s-", "b+", "b-"]
CONFIGS = {"n+": (16, zlib), "n4": (4, zlib), "n0": (0, None), "p+": (16, zlib)}

ARRAYS = {"small": lambda: np.arange(3), "five": lambda: np.arange(5), "many": lambda: np.arange(40.0)}
SCALARS = {"f8": lambda: np.float64(1.5), "m8": lambda: np.datetime64("2020-01-02"), "dt": lambda: np.dtype("i4"), "uf": lambda: np.add}
FRAMES = {"df": lambda: pd.DataFrame({"a": [1, 2], "b": ["x", "y"]}), "ts": lambda: pd.Timestamp(2020, 1, 2), "iv": lambda: pd.Interval(1, 2),
          "ix": lambda: pd.Index([1, 2]), "mi": lambda: pd.MultiIndex.from_tuples([(1, 2), (3, 4)])}


def equal(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (pd.DataFrame, pd.Index)):
        return a.equals(b)
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.tolist() == b.tolist()
    return a == b


class Model:
    def __init__(self):
        self.numpy, self.pandas, self.gmpy, self.sub, self.base = None, False, False, False, False

    def apply(self, op):
        if op in CONFIGS:
            self.numpy = CONFIGS[op]
        if op in ("n-", "p-"):
            self.numpy = None
        if op[0] in "pgsb":
            setattr(self, {"p": "pandas", "g": "gmpy", "s": "sub", "b": "base"}[op[0]], op[1] == "+")

    def key(self):
        return (self.numpy, self.pandas, self.gmpy, self.sub, self.base)


def apply(op):
    if op in ("n+", "n4", "n0"):
        threshold, compression = CONFIGS[op]
        if op == "n+":
            jsonpickle.ext.numpy.register_handlers()
        else:
            jsonpickle.ext.numpy.register_handlers(ndarray_size_threshold=threshold, ndarray_compression=compression)
    elif op == "s+":
        handlers.register(Sub, SubHandler)
    elif op == "s-":
        handlers.unregister(Sub)
    elif op == "b+":
        handlers.register(zoo.Plain, AnyHandler, base=True)
    elif op == "b-":
        handlers.unregister(zoo.Plain)
    else:
        ext = {"n": jsonpickle.ext.numpy, "p": jsonpickle.ext.pandas, "g": jsonpickle.ext.gmpy}[op[0]]
        (ext.register_handlers if op[1] == "+" else ext.unregister_handlers)()


class C33(Check):
    id = "C33"
    technique = "exhaustive enumeration of histories of registrations against a model of which extension is active with which settings"
    rule = "every history of the operations within the bound; lookups for every class and the text of every sample after it"
    assumptions = ("unregistering pandas unregisters numpy too, as registering it registers numpy",)

    @property
    def bounds(self):
        return {"history": 5 if self.thorough else 4, "operations": len(OPS), "classes": len(NUMPY) + len(PANDAS) + len(GMPY) + len(OTHERS), "yaml history": 4}

    def setup(self):
        self.initial = self.lookups()
        # what each setting gives when nothing happened before
        self.texts = {}
        for ops in (["n+"], ["n4"], ["n0"], ["p+"], ["g+", "s+"]):
            m = Model()
            for op in ops:
                apply(op)
                m.apply(op)
            for name, make in self.samples(m).items():
                self.texts[name, str(m.numpy) if name in ARRAYS else None] = self.text(make())
            self.unregister()

    def unregister(self):
        for op in ("p-", "n-", "g-", "s-", "b-"):
            apply(op)

    def clear(self):
        self.unregister()
        if self.lookups() != self.initial:
            raise Violation("unregistering everything does not give the registry that was there at first")

    def lookups(self):
        return {(n, by): handlers.get(c if by == "class" else f"{c.__module__}.{c.__qualname__}")
                for group in (NUMPY, PANDAS, GMPY, OTHERS, {"Sub": Sub}) for n, c in group.items() for by in ("class", "name")}

    def cases(self):
        for n in range(5 if self.thorough else 4):
            for h in itertools.product(OPS, repeat=n + 1):
                # registering and unregistering what is unrelated commutes: one order is enough
                if any(a[0] in "sbg" and b[0] in "sbg" and a[0] > b[0] for a, b in zip(h, h[1:])):
                    continue
                yield ("history", h)
        for n in range(4):
            for h in itertools.product(["y", "py", "pj", "ry", "rs", "ps"], repeat=n + 1):
                yield ("yaml", h)

    def run_case(self, case):
        getattr(self, "run_" + case[0])(case[1])

    def run_history(self, h):
        self.unregister()
        m = Model()
        try:
            for op in h:
                apply(op)
                m.apply(op)
                self.step()
            self.state(m.key())
            self.check_lookups(m, h)
            self.check_values(m, h)
        finally:
            self.clear()

    def check_lookups(self, m, h):
        for active, group in ((m.numpy, NUMPY), (m.pandas, PANDAS), (m.gmpy, GMPY)):
            for name, cls in group.items():
                got = handlers.get(cls)
                if (got is not None) != bool(active):
                    raise Violation(f"after {h}: the handler of {name} is {got}")
        if m.sub and handlers.get(Sub) is not SubHandler:
            raise Violation(f"after {h}: the handler of the own array class is {handlers.get(Sub)}")
        if not m.sub and handlers.get(Sub) is not (handlers.get(np.ndarray) if m.numpy else None):
            raise Violation(f"after {h}: the handler of the array subclass is {handlers.get(Sub)}")
        want = AnyHandler if m.base else None
        if handlers.get(zoo.Plain) is not want:
            raise Violation(f"after {h}: the handler of an own class is {handlers.get(zoo.Plain)}")
        for name in ("list", "dict", "Handled", "Slots"):
            if handlers.get(OTHERS[name]) is not self.initial[name, "class"]:
                raise Violation(f"after {h}: the handler of {name} is {handlers.get(OTHERS[name])}")

    def check_values(self, m, h):
        samples = self.samples(m, len(h) < 4)
        for name, make in samples.items():
            x = make()
            text = self.text(x)
            back = jsonpickle.decode(text)
            self.step(2)
            if back[0] != [1] or back[0] is not back[2] or not equal(back[1], x):
                raise Violation(f"after {h}: {name} decoded as {back!r} from {text}")
            want = self.texts[name, str(m.numpy) if name in ARRAYS else None]
            if text != want:
                raise Violation(f"after {h}: {name} is written as {text}\n  instead of {want}")
            if name in ARRAYS:
                self.check_settings(x, m.numpy, text, h)
        if m.numpy and len(h) < 4:
            self.check_state(m, h)

    def samples(self, m, full=True):
        samples = {}
        if m.numpy:
            samples.update(ARRAYS)
            if full:
                samples.update(SCALARS)
        if m.numpy and m.pandas and full:
            samples.update(FRAMES)
        if m.gmpy:
            samples["mpz"] = lambda: gmpy2.mpz(10**30)
        if m.sub:
            samples["sub"] = sub
        return samples

    def text(self, x):
        s = [1]
        return jsonpickle.encode([s, x, s])

    def check_settings(self, array, config, text, h):
        """The settings in force are those of the last registration."""
        threshold, compression = config
        plain = array.size <= threshold
        if plain != (str(array.tolist()) in text):
            raise Violation(f"after {h}: an array of {array.size} with threshold {threshold} is written as {text}")
        if not plain:
            raw = jsonpickle.util.b64encode(np.ascontiguousarray(array).tobytes())
            if (raw in text) != (compression is None):
                raise Violation(f"after {h}: an array of {array.size} with compression {compression} is written as {text}")

    def check_state(self, m, h):
        """The handlers of the extension are the ones that are called."""
        text = jsonpickle.encode({"a": np.arange(2), "p": zoo.Plain()})
        if ('"any": 1' in text) != m.base:
            raise Violation(f"after {h}: the own handler is not used as registered: {text}")

    def run_yaml(self, h):
        backend = jsonpickle.backend.JSONBackend()
        names = ["simplejson", "json", "ujson"]
        loaded = [n for n in names if self.usable(n)]
        value = {"a": [1, "x"], "b": None}
        for op in h:
            self.step()
            if op == "y":
                if jsonpickle.ext.yaml.register(backend) is not True:
                    raise Violation(f"after {h}: registering yaml did not give True")
                if "yaml" not in loaded:
                    loaded.append("yaml")
            elif op[0] == "p":
                name = {"y": "yaml", "j": "json", "s": "simplejson"}[op[1]]
                try:
                    backend.set_preferred_backend(name)
                    ok = True
                except AssertionError:
                    ok = False
                if ok != (name in loaded):
                    raise Violation(f"after {h}: preferring {name} with {loaded}: {ok}")
                if ok:
                    loaded.remove(name)
                    loaded.insert(0, name)
            else:
                name = {"y": "yaml", "s": "simplejson"}[op[1]]
                backend.remove_backend(name)
                if name in loaded:
                    loaded.remove(name)
        self.state(tuple(loaded))
        text = jsonpickle.encode(value, backend=backend)
        if text.startswith("a:") != (loaded[0] == "yaml"):
            raise Violation(f"after {h}: with {loaded} the text is {text}")
        # block style is nothing that JSON can be mistaken for
        if jsonpickle.decode(text, backend=backend) != value:
            raise Violation(f"after {h}: {text} is decoded differently")
        order = {"z": [1], "a": [2], "m": [3]}
        x = [order["z"], order, order["a"]]
        back = jsonpickle.decode(jsonpickle.encode(x, backend=backend), backend=backend)
        if back != x or list(back[1]) != ["z", "a", "m"] or back[1]["a"] is not back[2] or back[1]["z"] is not back[0]:
            raise Violation(f"after {h}: with {loaded} the value {x} is decoded as {back}")
        # the default manager is another one
        if jsonpickle.encode(value).startswith("a:"):
            raise Violation(f"after {h}: the default backend uses yaml")

    def usable(self, name):
        b = jsonpickle.backend.JSONBackend()
        try:
            b.set_preferred_backend(name)
        except AssertionError:
            return False
        return True


CHECK = C33
