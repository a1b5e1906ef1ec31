"""Classes in which every user hook is a numbered fault point, importable as mc.ticks.<name>."""

import copyreg

from jsonpickle import handlers


class Ticks:
    armed = False
    count = 0
    target = 0
    exc = None
    raised = None
    names = []


def tick(name):
    t = Ticks
    if not t.armed:
        return
    t.count += 1
    t.names.append(name)
    if t.count == t.target:
        t.raised = t.exc("tick")
        raise t.raised


def run(fn, target=0, exc=None):
    """Call fn; the target-th hook invocation raises. Returns (value, exception, hook names)."""
    t = Ticks
    t.armed, t.count, t.target, t.exc, t.raised, t.names = True, 0, target, exc, None, []
    try:
        return fn(), None, t.names
    except BaseException as e:  # noqa: BLE001
        if t.raised is None:
            raise
        e.__traceback__ = None
        return None, e, t.names
    finally:
        t.armed = False


class GetSet:
    def __getstate__(self):
        tick("getstate")
        return {"packed": [self.__dict__.get("a"), self.__dict__.get("b")]}

    def __setstate__(self, state):
        tick("setstate")
        self.a, self.b = state["packed"]


class GetSetTuple:
    __slots__ = ("a", "b")

    def __getstate__(self):
        tick("getstate")
        return (self.a, self.b)

    def __setstate__(self, state):
        tick("setstate")
        self.a, self.b = state


def rebuild(*args):
    tick("rebuild")
    o = object.__new__(Reduce)
    o.a, o.b = args
    return o


class Reduce:
    def __reduce__(self):
        tick("reduce")
        return (rebuild, (self.a, self.b))


class ReduceState:
    def __init__(self):
        tick("init")

    def __reduce_ex__(self, protocol):
        tick("reduce_ex")
        return (ReduceState, (), {"a": self.a, "b": self.b}, self.items(), self.pairs())

    def items(self):
        tick("items")
        yield 1
        tick("items2")

    def pairs(self):
        tick("pairs")
        yield "k", [2]

    def __setstate__(self, state):
        tick("setstate")
        self.__dict__.update(state)

    def extend(self, xs):
        tick("extend")
        self.__dict__["items_"] = list(xs)

    append = None

    def __setitem__(self, k, v):
        tick("setitem")
        self.__dict__["pair_" + k] = v


def setter(obj, state):
    tick("setter")
    obj.__dict__.update(state)


class ReduceSetter:
    def __new__(cls, *args):
        tick("new")
        return object.__new__(cls)

    def __reduce__(self):
        tick("reduce")
        return (copyreg.__newobj__, (ReduceSetter,), {"a": self.a, "b": self.b}, None, None, setter)


class NewArgs:
    def __new__(cls, *args):
        tick("new")
        o = object.__new__(cls)
        if args:
            o.a, o.b = args
        return o

    def __getnewargs__(self):
        tick("getnewargs")
        return (self.a, self.b)


class NewArgsEx:
    def __new__(cls, a=None, *, b=None):
        tick("new")
        o = object.__new__(cls)
        o.a, o.b = a, b
        return o

    def __getnewargs_ex__(self):
        tick("getnewargs_ex")
        return ((self.a,), {"b": self.b})


class Handled:
    pass


class HandledHandler(handlers.BaseHandler):
    def flatten(self, obj, data):
        tick("flatten")
        data["a"] = self.context.flatten(obj.a, reset=False)
        tick("flatten2")
        data["b"] = self.context.flatten(obj.b, reset=False)
        tick("flatten3")
        return data

    def restore(self, data):
        tick("restore")
        o = Handled()
        o.a = self.context.restore(data["a"], reset=False)
        tick("restore2")
        o.b = self.context.restore(data["b"], reset=False)
        tick("restore3")
        return o


handlers.register(Handled, HandledHandler)


class Base:
    pass


class Derived(Base):
    pass


class BaseHandler_(handlers.BaseHandler):
    def flatten(self, obj, data):
        tick("flatten")
        data["v"] = [self.context.flatten(v, reset=False) for v in (obj.a, obj.b)]
        return data

    def restore(self, data):
        tick("restore")
        o = Derived()
        o.a, o.b = [self.context.restore(v, reset=False) for v in data["v"]]
        return o


handlers.register(Base, BaseHandler_, base=True)


class List(list):
    def append(self, x):
        tick("append")
        list.append(self, x)

    def __iter__(self):
        tick("iter")
        return list.__iter__(self)


class Dict(dict):
    def __setitem__(self, k, v):
        tick("setitem")
        dict.__setitem__(self, k, v)


class SetAttr:
    def __setattr__(self, name, value):
        tick("setattr")
        object.__setattr__(self, name, value)


class Property:
    def __getstate__(self):
        tick("getstate")
        return {"a": self.a, "_b": self.b}

    @property
    def b(self):
        tick("get")
        return self.__dict__["_b"]

    @b.setter
    def b(self, v):
        tick("set")
        self.__dict__["_b"] = v


class Slots:
    __slots__ = ("_a", "__weakref__")

    @property
    def a(self):
        return self._a


AT = {}  # the position is not part of the value


class Iter:
    def __init__(self, items=()):
        self.todo = list(items)

    def __iter__(self):
        tick("iter")
        AT[id(self)] = 0
        return self

    def __next__(self):
        tick("next")
        at = AT.get(id(self), 0)
        if at >= len(self.todo):
            raise StopIteration
        AT[id(self)] = at + 1
        return self.todo[at]


class Key:
    def __init__(self, tag):
        self.tag = tag

    def __getstate__(self):
        tick("getstate")
        return [self.tag]

    def __setstate__(self, state):
        tick("setstate")
        self.tag = state[0]

    def __eq__(self, other):
        tick("eq")
        return type(other) is Key and other.tag == self.tag

    def __hash__(self):
        tick("hash")
        return hash(self.__dict__.get("tag"))


class Dynamic:
    def __getattr__(self, name):
        tick("getattr")
        raise AttributeError(name)


class HashList:
    """Hash and equality by contents, used in sets."""

    def __init__(self, v):
        self.v = v

    def __reduce__(self):
        tick("reduce")
        return (HashList, (self.v,))

    def __hash__(self):
        tick("hash")
        return 5

    def __eq__(self, other):
        tick("eq")
        return self is other
