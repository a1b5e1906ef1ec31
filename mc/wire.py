"""Values for the table of texts in wire.json, next to those of values.py.

`python -m mc.wire` writes the table anew; it is committed and read by C30.
"""

import collections
import datetime
import itertools
import json
import os

from . import zoo


class InitArgs:
    def __init__(self, *args):
        self.args = args

    def __getinitargs__(self):
        return (1, [2])


class NewArgsBoth:
    def __new__(cls, *args, **kw):
        return object.__new__(cls)

    def __getnewargs__(self):
        return (1,)

    def __getnewargs_ex__(self):
        return (1, (2,)), {"k": [3]}


class IntSub(int):
    pass


class FloatSub(float):
    pass


class BytesSub(bytes):
    pass


class FrozenSub(frozenset):
    pass


class DequeSub(collections.deque):
    pass


class FactorySub(collections.defaultdict):
    pass


class OrderedSub(collections.OrderedDict):
    pass


class Node:
    """A user-defined iterator."""

    def __init__(self, n):
        self.n = n

    def __iter__(self):
        return self

    def __next__(self):
        if not self.n:
            raise StopIteration
        self.n -= 1
        return [self.n]


def attrs(cls, *args, **kw):
    def make():
        o = cls(*args)
        vars(o).update(kw)
        return o

    return make


MORE = {
    "initargs": lambda: InitArgs(3),
    "newargs_both": NewArgsBoth,
    "int_sub": attrs(IntSub, 5, a=1),
    "float_sub": attrs(FloatSub, 0.5, a=[1]),
    "bytes_sub": attrs(BytesSub, b"\x00\xff"),
    "frozen_sub": lambda: FrozenSub([1]),
    "deque_sub": attrs(DequeSub, [1, [2]], 5, a=1),
    "factory_sub": attrs(FactorySub, list, {"k": [1]}, a=1),
    "ordered_sub": attrs(OrderedSub, [("b", 1), ("a", [2])], x=1),
    "list_sub": attrs(zoo.ListSub, [1, [2]], a=1, b=[3]),
    "dict_sub": attrs(zoo.DictSub, {"k": [1], "py/id": 2, "default_factory": 3}, a=1),
    "set_sub": attrs(zoo.SetSub, [1], a=1),
    "tuple_sub": attrs(zoo.TupleSub, (1, [2]), a=1),
    "iterator": lambda: Node(3),
    "generator": lambda: (x for x in ([1], "a")),
    "map": lambda: map(str, [1, 2]),
    "count": lambda: itertools.count(3),
    "list_iterator": lambda: iter([1, 2]),
    "long_text": lambda: " \U0001f600\ud800\x7f\"\\/\b\f\n\r\t\x00",
    "numbers": lambda: [10**30, -0.0, 1e300, 1e-7, 1e16, 123456789.125, True],
    "none_key": lambda: {None: 1, 1: 2, 1.5: 3, (1, 2): 4, True: 5, b"x": 6, datetime.date(2020, 1, 2): 7},
    "reserved": lambda: {"py/object": 1, "py/tuple": 2, "py/other": 3, "json://x": 4},
    "empty": lambda: [[], {}, (), set(), "", b"", bytearray()],
    "nested_class": lambda: [zoo.Outer.Inner, zoo.Outer.Inner()],
    "methods": lambda: [zoo.Counter0(3).value, len, zoo.rebuild, zoo.Outer, os, os.path],
}


def main():
    import jsonpickle

    from . import rt
    from .checks.c30 import CONTEXTS
    from .model import Model, Unmodelled
    from .values import GROUPS, V

    out = {}
    for name, make in [(n, V[n]) for g, ns in GROUPS.items() if g not in ("opaque", "null_stored") for n in ns] + list(MORE.items()):
        if name not in MORE:
            try:
                Model().encode(make())
                continue
            except Unmodelled:
                pass
        out[name] = {c: jsonpickle.encode(rt.CONTEXTS[c](make)) for c in CONTEXTS}
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "wire.json"), "w") as f:
        json.dump(out, f, indent=0, sort_keys=True)
        f.write("\n")


if __name__ == "__main__":
    main()
