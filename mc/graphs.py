"""Exhaustive enumeration of rooted object graphs.

A graph is written in its depth-first form: every object is spelled out where
it is first met and every later occurrence is a reference ("r", k) to the k-th
object in pre-order.  This form is canonical, so enumerating all terms
enumerates every rooted, ordered, labelled graph of the bounded size exactly
once, including shared and cyclic ones.

  term  ::=  ("v", i)                     leaf i of the alphabet
          |  ("r", k)                     the k-th object met so far
          |  (kind, (term, ...))          a new object of that kind
"""

import collections

from . import zoo
from .core import Skip


class Kind:
    """How to build one sort of object from its children.

    shell/fill: objects that can exist before their contents (cycles allowed)
    make:       objects built in one step from finished children
    """

    def __init__(self, name, arities, shell=None, fill=None, make=None, hashable=False,
                 child="any"):
        self.name = name
        self.arities = arities
        self.shell = shell
        self.fill = fill
        self.make = make
        self.hashable = hashable  # usable inside a set
        self.child = child  # "any" or "hashable"


KINDS = {}


def kind(name, arities, **kw):
    KINDS[name] = Kind(name, arities, **kw)


def _attrs(o, cs):
    for n, c in zip("abcdef", cs):
        setattr(o, n, c)


def _items(d, cs):
    for n, c in zip(["a", "b", "c", "d", "e", "f"], cs):
        d[n] = c


def _fill(o, cs):
    o.fill(*cs)


def _frozen(o, cs):
    for n, c in zip("ab", cs):
        object.__setattr__(o, n, c)


def _new(cls):
    return lambda: cls.__new__(cls)


kind("list", (0, 1, 2, 3), shell=list, fill=lambda o, cs: o.extend(cs))
kind("dict", (0, 1, 2, 3), shell=dict, fill=_items)
kind("tuple", (0, 1, 2), make=tuple)


def _fill_set(o, cs):
    o.update(cs)
    # two instances of one class in one set have no canonical order
    names = [type(c).__name__ for c in o if not isinstance(c, (int, str))]
    if len(set(names)) != len(names):
        raise Skip


kind("set", (0, 1, 2), shell=set, fill=_fill_set, child="hashable")
kind("plain", (0, 1, 2), shell=zoo.Plain, fill=_attrs, hashable=True)
kind("inner", (1, 2), shell=zoo.Outer.Inner, fill=_attrs, hashable=True)
kind("init", (2,), shell=_new(zoo.WithInit), fill=_attrs, hashable=True)
kind("slots", (0, 1, 2), shell=zoo.Slots, fill=_attrs, hashable=True)
kind("slots3", (1, 3), shell=zoo.SlotsChild, fill=_attrs, hashable=True)
kind("slots_private", (1, 2), shell=zoo.SlotsPrivate, fill=_fill, hashable=True)
kind("private", (1, 2), shell=zoo.Private, fill=_fill, hashable=True)
kind("data", (2,), shell=zoo.Data, fill=_attrs)
kind("frozen", (2,), shell=zoo.Frozen, fill=_frozen)
kind("data_slots", (2,), shell=zoo.DataSlots, fill=_attrs)


def _listsub(o, cs):
    if cs:
        o.attr = cs[0]
    o.extend(cs[1:])


def _dictsub(o, cs):
    # items are stored before attributes
    if cs:
        o.attr = cs[-1]
    _items(o, cs[:-1])


kind("list_sub", (0, 1, 2), shell=zoo.ListSub, fill=_listsub)
kind("list_sub_items", (1, 2), shell=zoo.ListSub, fill=lambda o, cs: o.extend(cs))
kind("dict_sub", (0, 1, 2), shell=zoo.DictSub, fill=_dictsub)
kind("dict_sub_items", (1, 2), shell=zoo.DictSub, fill=_items)
kind("set_sub", (1,), shell=zoo.SetSub, fill=lambda o, cs: o.update(cs), child="hashable")
kind("tuple_sub", (1, 2), make=zoo.TupleSub)
kind("point", (2,), make=lambda cs: zoo.Point(*cs))
kind("odict", (0, 1, 2), shell=collections.OrderedDict, fill=_items)
kind("ddict", (0, 1, 2), shell=lambda: collections.defaultdict(list), fill=_items)
kind("deque", (0, 1, 2), shell=collections.deque, fill=lambda o, cs: o.extend(cs))
kind("error", (0, 1, 2), shell=lambda: zoo.Err("e"), fill=_attrs, hashable=True)
kind("getset", (2,), shell=zoo.GetSet, fill=_attrs, hashable=True)
kind("getset_tuple", (2,), shell=zoo.GetSetTuple, fill=_attrs, hashable=True)
kind("getonly", (1, 2), shell=zoo.GetOnly, fill=_attrs, hashable=True)
kind("reduced", (2,), make=lambda cs: zoo.rebuild(*cs), hashable=True)
kind("reduce_state", (0, 1, 2), shell=zoo.ReduceState, fill=_attrs, hashable=True)
kind("reduce_setstate", (2,), shell=zoo.ReduceSetState, fill=_attrs, hashable=True)
kind("newargs", (2,), make=lambda cs: zoo.NewArgs(*cs), hashable=True)
kind("newargs_ex", (2,), make=lambda cs: zoo.NewArgsEx(cs[0], b=cs[1]), hashable=True)


def _make_handled(cs):
    o = zoo.Handled()
    o.a, o.b = cs
    return o


kind("handled", (2,), make=_make_handled, hashable=True)


def terms(kinds, nodes, leaves, arities=None, root=None, max_refs=None):
    """Every graph with at most `nodes` objects of the given kinds.

    leaves: indices of the leaf alphabet that may appear
    arities: optional {kind: arities} override
    """
    ar = {k: KINDS[k].arities for k in kinds}
    if arities:
        ar.update({k: v for k, v in arities.items() if k in ar})

    def child(budget, opened, hashable):
        for i in leaves:
            yield ("v", i), opened
        for k, kk in enumerate(opened):
            if not hashable or KINDS[kk].hashable:
                yield ("r", k), opened
        if budget > 0:
            for k in kinds:
                if hashable and not KINDS[k].hashable:
                    continue
                yield from node(k, budget, opened)

    def node(k, budget, opened):
        inner = opened + (k,)
        hashable = KINDS[k].child == "hashable"
        for a in ar[k]:
            for cs, op in children(a, budget - 1, inner, hashable):
                yield (k, cs), op

    def children(a, budget, opened, hashable):
        if a == 0:
            yield (), opened
            return
        for c, op in child(budget, opened, hashable):
            used = len(op) - len(opened)
            for rest, op2 in children(a - 1, budget - used, op, hashable):
                yield (c,) + rest, op2

    for k in root or kinds:
        for t, _ in node(k, nodes, ()):
            yield t


# kinds that are rebuilt from finished parts: constructor arguments or a handler
FROM_PARTS = {"tuple_sub", "point", "reduced", "newargs", "newargs_ex", "handled"}
# places where a reference to an unfinished object can be completed later
LATE = {"list", "dict", "plain", "inner", "init", "slots", "slots3", "private", "slots_private", "data", "frozen", "data_slots",
        "list_sub", "list_sub_items", "dict_sub", "dict_sub_items", "odict", "ddict", "deque", "getonly", "reduce_state"}


def closable(term):
    """No cycle has to be closed through the parts of an unfinished object."""
    kinds = []

    def walk(t, parent, open_):
        if t[0] == "v":
            return True
        if t[0] == "r":
            k = t[1]
            if k not in open_:
                return True
            if kinds[k] in ("set", "tuple"):
                # written out again, so what closes the cycle is inside of it
                return not any(kinds[i] in FROM_PARTS for i in open_ if i > k)
            return kinds[k] not in FROM_PARTS or parent in LATE
        i = len(kinds)
        kinds.append(t[0])
        return all([walk(c, t[0], open_ | {i}) for c in t[1]])

    return walk(term, None, frozenset())


def is_cyclic(term):
    count = [0]

    def walk(t, open_):
        if t[0] == "v":
            return False
        if t[0] == "r":
            return t[1] in open_
        i = count[0]
        count[0] += 1
        return any([walk(c, open_ | {i}) for c in t[1]])

    return walk(term, frozenset())


def count_nodes(term):
    if term[0] in ("v", "r"):
        return 0
    return 1 + sum(count_nodes(c) for c in term[1])


def build(term, leaves):
    """Build the real objects of a term. leaves: list of zero-argument factories or values."""
    nodes = []

    def number(t):
        if t[0] in ("v", "r"):
            return t
        i = len(nodes)
        nodes.append(None)
        cs = [number(c) for c in t[1]]
        nodes[i] = (KINDS[t[0]], cs)
        return ("r", i)

    root = number(term)
    objs = [None] * len(nodes)
    state = [0] * len(nodes)
    for i, (k, _) in enumerate(nodes):
        if k.shell is not None:
            objs[i] = k.shell()
            state[i] = 2

    def value(c):
        if c[0] == "v":
            v = leaves[c[1]]
            return v() if callable(v) and not isinstance(v, type) else v
        return make(c[1])

    def make(i):
        if state[i] == 2:
            return objs[i]
        if state[i] == 1:
            raise Skip  # an immutable object cannot contain itself
        state[i] = 1
        k, cs = nodes[i]
        objs[i] = k.make([value(c) for c in cs])
        state[i] = 2
        return objs[i]

    for i in range(len(nodes)):
        make(i)
    # containers whose contents are hashed are filled last
    order = sorted(range(len(nodes)), key=lambda i: nodes[i][0].child == "hashable")
    for i in order:
        k, cs = nodes[i]
        if k.shell is not None:
            try:
                k.fill(objs[i], [value(c) for c in cs])
            except TypeError as e:
                if "unhashable" in str(e):
                    raise Skip from None
                raise
    return value(root)
