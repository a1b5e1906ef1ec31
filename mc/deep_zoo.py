"""Classes whose hooks need a stack of their own, importable as mc.deep_zoo.<name>."""

import sys

import jsonpickle

HERE = sys.modules[__name__]
FRAMES = 40


def deep(value, n=FRAMES):
    return deep(value, n - 1) if n else value


def _take(self, state):
    self.__dict__.update(deep(state))


class GetState:
    def __getstate__(self):
        return deep(dict(self.__dict__))


class SetState:
    def __getstate__(self):
        return dict(self.__dict__)

    __setstate__ = _take


class Reduce:
    def __reduce__(self):
        return deep((type(self), (), dict(self.__dict__)))


class ReduceEx:
    def __reduce_ex__(self, protocol):
        return deep((type(self), (), dict(self.__dict__)))


class Built:
    """Restored by a call that needs stack."""

    def __reduce__(self):
        return (rebuilt, (self.a, self.b))


def rebuilt(a, b):
    x = deep(Built())
    x.a, x.b = a, b
    return x


class NewArgs:
    def __new__(cls, *args):
        return deep(object.__new__(cls))

    def __getnewargs__(self):
        return deep((1,))


class NewArgsEx:
    def __new__(cls, *args, **kw):
        return deep(object.__new__(cls))

    def __getnewargs_ex__(self):
        return deep(((1,), {"k": 2}))


class Assigned:
    """Setting its attributes needs stack."""

    def __setattr__(self, name, value):
        object.__setattr__(self, name, deep(value))


class Read:
    """Reading its attributes needs stack."""

    def __getattribute__(self, name):
        return object.__getattribute__(self, deep(name))


class Asked:
    """Asking for an attribute that it does not have needs stack."""

    def __getattr__(self, name):
        deep(name)
        raise AttributeError(name)


class Items(list):
    def append(self, value):
        list.append(self, deep(value))

    def __iter__(self):
        return deep(list.__iter__(self))


class Entries(dict):
    def __setitem__(self, key, value):
        dict.__setitem__(self, key, deep(value))

    def items(self):
        return deep(dict.items(self))


class Members(set):
    def add(self, value):
        set.add(self, deep(value))


class Stream:
    """An iterator."""

    def __init__(self):
        self.n = 0

    def __iter__(self):
        return deep(self)

    def __next__(self):
        self.n += 1
        if deep(self.n) > 2:
            raise StopIteration
        return self.n


class Flattened:
    pass


class Restored:
    pass


class Handler(jsonpickle.handlers.BaseHandler):
    def flatten(self, obj, data):
        data["v"] = self.context.flatten([obj.a, obj.b], reset=False)
        return deep(data) if type(obj) is Flattened else data

    def restore(self, data):
        x = object.__new__(Flattened if "Flattened" in data["py/object"] else Restored)
        x.a, x.b = self.context.restore(data["v"], reset=False)
        return deep(x) if type(x) is Restored else x


jsonpickle.handlers.register(Flattened, Handler)
jsonpickle.handlers.register(Restored, Handler)
NAMES = ["GetState", "SetState", "Reduce", "ReduceEx", "Built", "NewArgs", "NewArgsEx", "Assigned", "Read", "Asked", "Items", "Entries", "Members", "Stream", "Flattened", "Restored"]


def make(name):
    x = getattr(HERE, name)()
    shared = [1]
    if name == "Items":
        x.extend([shared, 2])
    elif name == "Entries":
        x.update(a=shared, b={"a": shared})
    elif name == "Members":
        x.update([1, 2])
    elif name != "Stream":
        x.a, x.b = shared, {"a": shared}
    return x
