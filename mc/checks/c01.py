"""C01: built-in data round trips exactly."""

import itertools
import struct

from .. import rt
from ..core import Check, Skip
from ..values import GROUPS, V

B85 = {"use_base85": True}
SCALARS = GROUPS["null"] + GROUPS["bool"] + GROUPS["int"] + GROUPS["float"] + GROUPS["nonfinite"] \
    + GROUPS["str"] + GROUPS["bytes"] + GROUPS["bytearray"]
PLAIN = SCALARS + GROUPS["container"]
# kinds of containers; True if the elements have to be hashable
SHAPES = {"l": False, "t": False, "d": False, "s": True, "f": True}
LEAVES = {"i": 1, "n": None, "t": "x", "b": b"\xff", "z": False}
# characters that have a meaning in JSON, in the wire format or in Python
CHARS = '"\\/\x00\n\x1f\x7f a0.-{[:,éሴ 𐀀😀'


def trees(n, hashable=False, leaves=tuple(LEAVES)):
    """All nestings with exactly n containers, as (term, ...)"""
    if n == 0:
        yield from leaves
        return
    for shape, inner in SHAPES.items():
        if hashable and shape not in "tf":
            continue
        inner = inner or hashable
        if n == 1:
            yield (shape,)
        for a in (1, 2):
            for split in splits(n - 1, a):
                yield from (
                    (shape, *cs)
                    for cs in itertools.product(*[list(trees(k, inner, leaves)) for k in split])
                )


def splits(n, a):
    if a == 1:
        yield (n,)
        return
    for i in range(n + 1):
        for rest in splits(n - i, a - 1):
            yield (i, *rest)


def build(t):
    if isinstance(t, str):
        return LEAVES[t]
    cs = [build(c) for c in t[1:]]
    try:
        return {
            "l": list,
            "t": tuple,
            "s": set,
            "f": frozenset,
            "d": lambda cs: dict(zip(("b", "a"), cs)),
        }[t[0]](cs)
    except TypeError:
        raise Skip from None


class C01(Check):
    id = "C01"
    technique = "exhaustive enumeration of built-in values and nestings on the real encoder and decoder"
    rule = (
        "every value of the bounded alphabets in every context and under both binary encodings; "
        "a state is a distinct encoded text"
    )

    @property
    def bounds(self):
        return {
            "nesting": "all trees of list/tuple/dict/set/frozenset with up to 3 containers, width 2, "
            + ("5" if self.thorough else "4") + " containers over one leaf",
            "integers": "-1500..1500 and +-(2**k + {-1,0,1}) for k <= 512",
            "floats": "both signs, all 2047 exponents, 5 mantissas; k/1000 for k <= 2000",
            "strings": "every Unicode code point (as value and as key); all strings of length <= 3 over special characters",
            "bytes": "all single bytes and pairs, all lengths 0..130",
            "containers": "all lengths 0..70 of every kind, nesting depth 1..120",
        }

    def cases(self):
        for c in rt.CONTEXTS:
            for a in PLAIN:
                for o in ({}, B85) if "b" in a else ({},):
                    yield ("ctx", c, a, bool(o))
        for a, b in itertools.product(PLAIN, repeat=2):
            yield ("pair", a, b)
        for n in (0, 1, 2, 3):
            for t in trees(n):
                yield ("tree", t)
        for t in trees(4, leaves=("i",)):
            yield ("tree", t)
        if self.thorough:
            for t in trees(5, leaves=("t",)):
                yield ("tree", t)
            for a, b, c in itertools.product(SCALARS, repeat=3):
                yield ("triple", a, b, c)
        for base in range(-1500, 1500, 20):
            yield ("ints", base)
        for k in range(0, 513):
            yield ("pow", k)
        for e in range(0, 2048, 8):
            yield ("floats", e)
        for k in range(0, 2000, 20):
            yield ("decimals", k)
        for base in range(0, 0x110000, 0x400):
            yield ("chars", base)
        for n in (1, 2, 3):
            for s in itertools.product(CHARS, repeat=n):
                yield ("str", "".join(s))
        for a in range(256):
            yield ("bytes", a)
        for n in range(131):
            yield ("blen", n)
        for n in range(71):
            yield ("len", n)
        for n in list(range(1, 40)) + [60, 80, 100, 120]:
            for s in "ltdf":
                yield ("deep", s, n)
        for s in itertools.product("ltd", repeat=6):
            yield ("spine", "".join(s))

    def value(self, x, key=None):
        rt.same(self, x)

    def run_case(self, case):
        kind = case[0]
        getattr(self, "run_" + kind)(*case[1:])

    def run_ctx(self, ctx, name, b85):
        rt.same(self, rt.CONTEXTS[ctx](V[name]), B85 if b85 else {})

    def run_pair(self, a, b):
        a, b = V[a](), V[b]()
        rt.same(self, [a, b, (b, a), {"a": b, "b": a}])

    def run_triple(self, *names):
        a, b, c = [V[n]() for n in names]
        rt.same(self, [a, (b, {"k": c})])

    def run_tree(self, t):
        x = build(t)
        rt.same(self, x)
        if "b" in str(t):
            rt.same(self, x, B85)

    def run_ints(self, base):
        for n in range(base, base + 20):
            rt.same(self, [n, {"k": (n,)}, {n}])

    def run_pow(self, k):
        for n in (2**k - 1, 2**k, 2**k + 1):
            rt.same(self, [n, -n])
            rt.same(self, n)
            rt.same(self, -n)

    def run_floats(self, base):
        for e in range(base, min(base + 8, 2047)):
            for m in (0, 1, 1 << 51, 0x5555555555555, (1 << 52) - 1):
                for sign in (0, 1):
                    (x,) = struct.unpack("<d", struct.pack("<Q", sign << 63 | e << 52 | m))
                    rt.same(self, [x, {"k": x}])

    def run_decimals(self, base):
        for k in range(base, base + 20):
            rt.same(self, [k / 1000, -k / 1000, k * 1000.0, float(k)])

    def run_chars(self, base):
        cs = [chr(c) for c in range(base, base + 0x400)]
        rt.same(self, cs)
        rt.same(self, {c: c for c in cs})
        rt.same(self, "".join(reversed(cs)))
        rt.same(self, ["x" + c + "y" for c in cs])

    def run_str(self, s):
        rt.same(self, s)
        rt.same(self, [s, {s: s}, (s,), {s}])

    def run_bytes(self, a):
        for o in ({}, B85):
            rt.same(self, bytes([a]), o)
            rt.same(self, [bytes([a, b]) for b in range(256)], o)
            rt.same(self, [bytearray([b, a]) for b in range(256)], o)

    def run_blen(self, n):
        for o in ({}, B85):
            for fill in (b"\x00", b"\xff", b"a"):
                rt.same(self, [fill * n, bytearray(fill * n), {"k": (fill * n,)}], o)
            rt.same(self, bytes(range(n)), o)

    def run_len(self, n):
        r = range(n)
        for x in (
            list(r),
            tuple(r),
            set(r),
            frozenset(r),
            {str(i): i for i in reversed(r)},
            [[i] for i in r],
            {str(i): {"k": i} for i in r},
            ({i} for i in r),
            [str(i) for i in r],
            [None] * n,
            [True] * n,
            "a" * n,
        ):
            x = tuple(x) if type(x).__name__ == "generator" else x
            rt.same(self, x)
            rt.same(self, [x, (x,)])

    def run_deep(self, s, n):
        x = 1
        for _ in range(n):
            x = build_level(s, x)
        rt.same(self, x)

    def run_spine(self, s):
        x = None
        for c in s:
            x = build_level(c, x)
        rt.same(self, x)


def build_level(s, x):
    return {"l": lambda: [x], "t": lambda: (x,), "d": lambda: {"k": x}, "f": lambda: frozenset([x])}[s]()


CHECK = C01
