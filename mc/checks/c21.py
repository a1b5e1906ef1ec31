"""C21: NumPy arrays, scalars and dtypes round trip."""

import bz2
import itertools
import warnings
import zlib

import numpy as np

import jsonpickle
import jsonpickle.ext.numpy
from jsonpickle import handlers

from .. import zoo
from ..core import Check, Skip, Violation
from ..snap import snap

SIMPLE = ["?", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f2", "f4", "f8", "g", "c8", "c16", "G",
          "S1", "S3", "U1", "U3", "V4", "O",
          "M8[Y]", "M8[D]", "M8[h]", "M8[s]", "M8[ms]", "M8[us]", "M8[ns]", "m8[D]", "m8[s]", "m8[us]", "m8[ns]", "m8[3s]"]
STRUCTS = {
    "st_1": [("a", "<i4")],
    "st_2": [("a", "<i4"), ("b", "<f8")],
    "st_be": [("a", ">i4"), ("b", ">f8")],
    "st_mix": [("a", ">i2"), ("b", "<i2"), ("c", "S2"), ("d", "U2")],
    "st_sub": [("a", "<i2", (2,)), ("b", "u1")],
    "st_subbe": [("a", ">i2", (2, 2))],
    "st_nest": [("a", [("x", "<i2"), ("y", ">f4")]), ("b", "?")],
    "st_dt": [("a", "<M8[s]"), ("b", "<m8[us]")],
    "st_cplx": [("a", "<c8"), ("b", "<f2")],
    "st_title": [(("Title", "a"), "<i4"), ("b", "u1")],
    "st_align": np.dtype([("a", "u1"), ("b", "<i4")], align=True),
    "st_offs": np.dtype({"names": ["a", "b"], "formats": ["<i2", "u1"], "offsets": [2, 6], "itemsize": 10}),
}


def dtypes():
    out = {}
    for c in SIMPLE:
        d = np.dtype(c)
        if d.byteorder == "|":
            out[c] = d
        else:
            out["<" + c] = d.newbyteorder("<")
            out[">" + c] = d.newbyteorder(">")
    for n, s in STRUCTS.items():
        out[n] = np.dtype(s)
    return out


DTYPES = dtypes()
CORE = ["?", "<i4", ">i4", "<f8", ">f8", "<c16", "S3", "<U3", ">U3", "O", "<M8[s]", ">M8[s]", "st_2", "st_be", "st_nest"]
SHAPES = [(), (0,), (1,), (2,), (3,), (16,), (17,), (0, 3), (2, 0), (2, 3), (4, 4), (1, 17), (1, 1, 1), (2, 3, 4), (2, 2, 2, 2, 2)]
LAYOUTS = ["C", "F", "C-ro", "F-ro"]
CONFIGS = [(16, zlib), (0, zlib), (None, zlib), (1, zlib), (16, None), (0, bz2), (0, None)]
EDGE = {
    "f": [0.0, -0.0, 1.5, -2.25, float("inf"), float("-inf"), float("nan"), 0.1],
    "c": [0j, 1 + 2j, complex(-0.0, 1.0), complex(0.5, -0.25), 3 - 1j],
    "S": [b"", b"a", b"abc", b"\xff\x00z", b"\x00\x00b"],
    "U": ["", "a", "abc", "é", "\U0001f600", "a\x00b"],
    "O": [None, 1, "s", 2.5, True, "eA==", -7],
    "M": [0, 1, -1, 50, "NaT", 18000],
    "m": [0, 1, -1, 90061, "NaT", -5],
}


def scalar(d, i):
    k = d.kind
    if d.fields:
        return tuple(scalar(d.fields[n][0], i + j) for j, n in enumerate(d.names))
    if d.subdtype:
        base, shape = d.subdtype
        return np.array([scalar(base, i + j) for j in range(int(np.prod(shape)))], dtype=base).reshape(shape).tolist()
    if k == "b":
        return i % 3 == 0
    if k in "iu":
        info = np.iinfo(d)
        return [0, 1, info.max, info.min, 5, info.max // 3][i % 6]
    if k == "f" and d.char == "g":
        return [np.longdouble(1) / 3, np.longdouble("inf"), np.longdouble("nan"), np.longdouble(-2)][i % 4]
    if k == "c" and d.char == "G":
        return np.clongdouble(i) / 4 + 1j
    if k == "V":
        return bytes([i % 7, 0, 255, 1])
    e = EDGE[k]
    return e[i % len(e)]


def array(name, shape, layout="C"):
    d = DTYPES[name]
    n = int(np.prod(shape))
    flat = np.zeros(n, dtype=d)
    for i in range(n):
        v = scalar(d, i)
        if d.kind in "Mm":
            v = np.dtype(d).type(v, np.datetime_data(d))
        flat[i] = v
    a = np.array(flat.reshape(shape), dtype=d, order=layout[0])
    assert a.base is None and a.dtype == d and a.shape == shape
    if layout.endswith("ro"):
        a.flags.writeable = False
    return a


VIEWS = {
    "same": lambda a: a[...],
    "tail": lambda a: a[1:],
    "head": lambda a: a[:2],
    "step": lambda a: a[::2],
    "back": lambda a: a[::-1],
    "stepback": lambda a: a[::-2],
    "T": lambda a: a.T,
    "row": lambda a: a[1],
    "column": lambda a: a[..., 1],
    "newaxis": lambda a: a[np.newaxis],
    "ravel": lambda a: a.reshape(-1, order="A"),
    "bytes": lambda a: a.view("u1"),
    "swapped": lambda a: a.view(a.dtype.newbyteorder()),
    "twice": lambda a: a[1:][::2],
    "point": lambda a: a[(1,) * a.ndim][...] if a.ndim == 1 else a[1, ..., 1],
    "empty": lambda a: a[5:5],
    "spread": lambda a: np.broadcast_to(a, (2, *a.shape)),
    "readonly": lambda a: readonly(a[...]),
    "field": lambda a: a["a"],
    "diag": lambda a: np.einsum("ii->i", a),
}


def readonly(a):
    a.flags.writeable = False
    return a


VIEW_SHAPES = [(3,), (4, 5), (2, 3), (17,), (4, 4), (3, 2, 3)]
PLACES = ["alone", "base first", "view first", "two views", "nested"]


def same_elements(a, b):
    if a.dtype.hasobject:
        return snap(a.tolist()) == snap(b.tolist())
    if a.dtype.char in "gG":
        return bool(np.array_equal(a, b, equal_nan=True))
    # only the bytes of fields count, not those of the padding
    if a.dtype.fields:
        return all(same_elements(a[n], b[n]) for n in a.dtype.names)
    return a.tobytes() == b.tobytes()


def compare(a, b, what, flags=True):
    if type(b) is not np.ndarray:
        raise Violation(f"{what}: decoded to {type(b)}")
    if a.dtype != b.dtype or a.dtype.str != b.dtype.str or a.dtype.descr != b.dtype.descr:
        raise Violation(f"{what}: dtype {a.dtype!r} became {b.dtype!r}")
    if a.shape != b.shape:
        raise Violation(f"{what}: shape {a.shape} became {b.shape}")
    if not same_elements(a, b):
        raise Violation(f"{what}: {a!r} became {b!r}")
    if flags and a.flags.writeable != b.flags.writeable:
        raise Violation(f"{what}: writeable {a.flags.writeable} became {b.flags.writeable}")


class C21(Check):
    id = "C21"
    technique = "exhaustive enumeration of dtypes, shapes, layouts, views and handler options"
    rule = "every combination within the bound; a state is a distinct encoded text"

    @property
    def bounds(self):
        return {"dtypes": len(DTYPES), "shapes": len(SHAPES), "layouts": len(LAYOUTS), "handler options": len(CONFIGS),
                "views": len(VIEWS), "places of a view": len(PLACES)}

    def setup(self):
        warnings.simplefilter("ignore")

    def cases(self):
        for d, s, lay, c in itertools.product(DTYPES, SHAPES, LAYOUTS, range(len(CONFIGS))):
            if self.thorough or c < 4 or d in CORE:
                yield ("array", d, s, lay, c)
        for d, s, v, c in itertools.product(DTYPES, VIEW_SHAPES, VIEWS, range(len(CONFIGS))):
            if d in CORE and (self.thorough or c < 4) or c < 2:
                for p in PLACES if c < 2 or self.thorough else PLACES[1:3]:
                    yield ("view", d, s, "C", v, c, p)
        for d, s, v, c in itertools.product(CORE, VIEW_SHAPES, VIEWS, range(4)):
            for lay in ("F", "C-ro"):
                yield ("view", d, s, lay, v, c, "view first")
        for d, v, w in itertools.product(CORE, VIEWS, VIEWS):
            yield ("views", d, v, w)
        for d in DTYPES:
            yield ("dtype", d)
            for i in range(8):
                yield ("scalar", d, i)
        for name in sorted(n for n in dir(np) if isinstance(getattr(np, n), np.ufunc)):
            yield ("ufunc", name)
        for k in range(12):
            for c in range(len(CONFIGS)):
                yield ("object", k, c)
        for mode in ("warn", "raise", "ignore"):
            yield ("mode", mode)
        yield ("unregister",)
        for d in ("<i4", "?", "<f8"):
            for n in range(0, 40):
                for t in (0, 1, 5, 16, 17, 38, None):
                    yield ("threshold", d, n, t)

    def register(self, c):
        t, comp = CONFIGS[c]
        jsonpickle.ext.numpy.register_handlers(ndarray_size_threshold=t, ndarray_compression=comp)

    def trip(self, x, **opts):
        text = jsonpickle.encode(x, **opts)
        self.step(2)
        self.state(text)
        return jsonpickle.decode(text, **{k: v for k, v in opts.items() if k == "keys"})

    def run_case(self, case):
        self.register(case[-1] if case[0] in ("array", "object") else case[5] if case[0] == "view" else 0)
        try:
            getattr(self, "run_" + case[0])(*case[1:])
        finally:
            jsonpickle.ext.numpy.unregister_handlers()
            handlers.unregister(np.datetime64)

    def run_array(self, d, s, lay, c):
        a = array(d, s, lay)
        if d == "O" and CONFIGS[c][0] is not None and a.size > CONFIGS[c][0] and any(v is None for v in s):
            raise Skip
        n = [9]
        p = zoo.Plain()
        p.a, p.n = a, n
        back = self.trip([a, n, p, a, n])
        compare(a, back[0], "first")
        if back[3] is not back[0] or back[2].a is not back[0] or back[4] is not back[1] or back[2].n is not back[1] or back[1] != [9]:
            raise Violation(f"references: {back}")
        for opts in ({"keys": True}, {"make_refs": False}):
            compare(a, self.trip({"k": (a,)}, **opts)["k"][0], str(opts))
        compare(a, self.trip(a), "alone")

    def make_view(self, a, v):
        try:
            w = VIEWS[v](a)
        except (IndexError, ValueError, TypeError):
            raise Skip from None
        if type(w) is not np.ndarray or w.base is not a:
            raise Skip
        if v in ("bytes", "swapped") and (a.dtype.char in "gG" or a.dtype.name.startswith("void") and "V" in str(a.dtype.descr)):
            raise Skip  # shows the padding
        if w.dtype.hasobject and v in ("bytes", "swapped") or v == "swapped" and "U" in w.dtype.str + str(w.dtype.descr):
            raise Skip
        return w

    def run_view(self, d, s, lay, v, c, place):
        a = array(d, s, lay)
        w = self.make_view(a, v)
        n = [9]
        if place == "alone":
            compare(w, self.trip(w), "view")
            compare(w, self.trip(w, make_refs=False), "view without references")
            return
        if place == "base first":
            ba, bw, n1, n2, again = self.trip([a, w, n, n, w])
        elif place == "view first":
            bw, n1, ba, again, n2 = self.trip([w, n, a, w, n])
        elif place == "two views":
            w2 = a[...]
            bw, b2, n1, n2, ba, again = self.trip([w, w2, n, n, a, w])
            compare(w2, b2, "other view")
            self.layout(a, w2, ba, b2)
        else:
            p = zoo.Plain()
            p.v, p.n = {"k": (w, n)}, n
            bp, t = self.trip([p, (n, a, w)])
            bw, n1 = bp.v["k"]
            n2, ba, again = t
            if bp.n is not n1:
                raise Violation("references differ")
        compare(a, ba, "base")
        compare(w, bw, "view")
        if n1 is not n2 or n1 != [9] or again is not bw:
            raise Violation("references differ")
        self.layout(a, w, ba, bw)

    def layout(self, a, w, ba, bw):
        """The view covers the same part of the memory of its base."""
        if bw.size and (bw.strides != w.strides and not w.flags.c_contiguous or bw.ctypes.data - ba.ctypes.data != w.ctypes.data - a.ctypes.data):
            raise Violation("the view does not cover the same memory of its base")
        if w.size and not np.shares_memory(ba, bw):
            raise Violation("the view does not share the memory of its base")

    def run_views(self, d, v, w):
        a = array(d, (4, 4), "C")
        x, y = self.make_view(a, v), self.make_view(a, w)
        n = [9]
        bx, n1, by, n2 = self.trip([x, n, y, n])
        compare(x, bx, "first")
        compare(y, by, "second")
        if n1 is not n2 or np.shares_memory(x, y) != np.shares_memory(bx, by):
            raise Violation("references differ")

    def run_dtype(self, d):
        x = DTYPES[d]
        n = [9]
        for v in (x, np.dtype((x, (2,))), np.dtype([("f", x), ("g", x, (2,))])):
            if v is not x and x.isalignedstruct:
                continue  # the text of the dtype leaves the alignment of parts out
            back = self.trip([v, n, {"k": v}, n])
            for b in (back[0], back[2]["k"], self.trip(v)):
                if not isinstance(b, np.dtype) or b != v or b.str != v.str or b.shape != v.shape:
                    raise Violation(f"dtype {v!r} became {b!r}")
            if back[1] is not back[3]:
                raise Violation("references differ")
        t = self.trip([x.type, n, n])
        if t[0] is not x.type or t[1] is not t[2]:
            raise Violation(f"{x.type} became {t[0]}")

    def run_scalar(self, d, i):
        x = array(d, (8,))[i]
        if d == "O":
            raise Skip
        n = [9]
        back = self.trip([x, n, {"k": x}, n])
        for b in (back[0], back[2]["k"], self.trip(x), self.trip((x,), make_refs=False)[0]):
            if type(b) is not type(x) or b.dtype != x.dtype or not same_elements(np.array(x), np.array(b)):
                raise Violation(f"{x!r} of {x.dtype!r} became {b!r} of {getattr(b, 'dtype', type(b))!r}")
        if back[1] is not back[3]:
            raise Violation("references differ")

    def run_ufunc(self, name):
        f = getattr(np, name)
        back = self.trip([f, {"k": f}])
        if back[0] is not f or back[1]["k"] is not f:
            raise Violation(f"{f} became {back}")

    def run_object(self, k, c):
        n = [9]
        p = zoo.Plain()
        p.n = n
        items = [[[1], [2]], [(1, 2), (3, 4)], [[1], [2, 3]], [{"a": 1}, {}], [p, p], [n, n], [None, [None]],
                 ["a", b"b"], [[[1]], [[2]]], [[], []], [np.arange(2), np.arange(2)], [zoo.Plain, p]][k]
        a = np.empty(len(items), dtype=object)
        for i, x in enumerate(items):
            a[i] = x
        t = CONFIGS[c][0]
        shared = t is None or t >= 2  # text keeps references
        plain = k in (0, 2, 3, 6, 8, 9)
        if t is not None and t < a.size and not plain:
            raise Skip  # only plain JSON values are stored above the threshold
        back = self.trip([a, n, p])
        b = back[0]
        if type(b) is not np.ndarray or b.dtype != object or b.shape != a.shape:
            raise Violation(f"{a!r} became {b!r}")
        x, y = [list(a), n, p], [list(b), back[1], back[2]]
        if k == 10:
            for u, v in zip(a, b):
                compare(u, v, "element")
        elif snap(x, identity=shared) != snap(y, identity=shared):
            raise Violation(f"{a!r} became {b!r}")
        two = np.empty((2, 1), dtype=object)
        two[:, 0] = list(a)[:1] * 2 if k != 10 else [1, 2]
        b = self.trip(two)
        if b.shape != two.shape or (k != 10 and snap(list(two[:, 0]), identity=shared) != snap(list(b[:, 0]), identity=shared)):
            raise Violation(f"{two!r} became {b!r}")

    def run_mode(self, mode):
        jsonpickle.ext.numpy.register_handlers(ndarray_mode=mode)
        base = np.arange(40)
        a = np.lib.stride_tricks.as_strided(base, shape=(9,), strides=(1,))
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter("always")
            self.step()
            try:
                back = jsonpickle.decode(jsonpickle.encode([a, [1]]))
            except ValueError:
                if mode != "raise":
                    raise
                return
        if mode == "raise":
            raise Violation("no error in raise mode")
        if bool(seen) != (mode == "warn"):
            raise Violation(f"warnings {seen} in {mode} mode")
        compare(a.copy(), back[0], "copy")

    def run_unregister(self):
        before = {c: handlers.get(c) for c in (np.ndarray, np.int32, np.float64, np.dtype, type(np.dtype("i4")), np.datetime64, np.ufunc)}
        if None in before.values():
            raise Violation(f"not registered: {before}")
        jsonpickle.ext.numpy.unregister_handlers()
        self.step(2)
        left = [c for c in before if handlers.get(c) is not None]
        if left:
            raise Violation(f"still registered: {left}")

    def run_threshold(self, d, n, t):
        jsonpickle.ext.numpy.register_handlers(ndarray_size_threshold=t)
        a = array(d, (n,))
        text = jsonpickle.encode(a)
        self.step(2)
        self.state((text, t))
        compare(a, jsonpickle.decode(text), "array")
        m = array(d, (n, 1)).T
        compare(m, jsonpickle.decode(jsonpickle.encode(m)), "transposed")


CHECK = C21
