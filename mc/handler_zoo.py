"""Handled classes for C24, and handlers that log what they are given."""

import functools

from jsonpickle import handlers

LOG = []
ABSENT = "absent"


class Base:
    def __init__(self, cs):
        self.parts = list(cs)
        self.hidden = "HIDDEN"


class Exact(Base):
    pass


class Kw(Base):
    pass


class KwChild(Kw):
    """Handled because of its base class."""


class KwGrandChild(KwChild):
    pass


class ByInstance(Base):
    pass


class DictDerived(dict):
    def __init__(self, cs):
        dict.__init__(self, item="HIDDEN")
        self.parts = list(cs)


class ListDerived(list):
    def __init__(self, cs):
        list.__init__(self, ["HIDDEN"])
        self.parts = list(cs)


class SetDerived(set):
    def __init__(self, cs):
        set.__init__(self, ["HIDDEN"])
        self.parts = list(cs)


def _boom(*args):
    raise AssertionError("this hook must not be called")


class Hooks(Base):
    """None of these hooks matter for a class with a handler."""

    __reduce__ = __reduce_ex__ = __getstate__ = __setstate__ = __getnewargs__ = __getnewargs_ex__ = _boom
    __getinitargs__ = _boom
    _jsonpickle_exclude = ["parts"]


class Slotted:
    __slots__ = ("parts", "hidden")

    def __init__(self, cs):
        self.parts = list(cs)
        self.hidden = "HIDDEN"


class Falsy(Base):
    def __bool__(self):
        return False

    def __len__(self):
        return 0

    def __eq__(self, other):
        return True

    __hash__ = None


class Iterating(Base):
    def __iter__(self):
        return self

    __next__ = _boom


class Callable(Base):
    __call__ = _boom


class AsString(Base):
    pass


class AsNull(Base):
    pass


class AsNumber(Base):
    pass


CLASSES = (Exact, Kw, KwChild, KwGrandChild, ByInstance, DictDerived, ListDerived, SetDerived, Hooks, Slotted, Falsy,
           Iterating, Callable)


class Handler(handlers.BaseHandler):
    cls = None

    def write(self, obj, data, received):
        LOG.append(("flatten", obj, dict(data), received, type(self), self.context))
        data["parts"] = [self.context.flatten(p, reset=False) for p in obj.parts]
        return data

    def read(self, data, received):
        from . import handler_zoo

        LOG.append(("restore", data, None, received, type(self), self.context))
        cls = getattr(handler_zoo, data["py/object"].rpartition(".")[2])
        return cls([self.context.restore(p, reset=False) for p in data["parts"]])

    def flatten(self, obj, data):
        return self.write(obj, data, ABSENT)

    def restore(self, data):
        return self.read(data, ABSENT)


def logged(fn):
    @functools.wraps(fn)
    def wrapper(*args, **kw):
        return fn(*args, **kw)

    return wrapper


# the two methods in every way of taking, or not taking, a context
def f_none(self, obj, data):
    return self.write(obj, data, ABSENT)


def f_default(self, obj, data, handler_context=ABSENT):
    return self.write(obj, data, handler_context)


def f_kwonly(self, obj, data, *, handler_context=ABSENT):
    return self.write(obj, data, handler_context)


def f_other(self, obj, data, context=ABSENT, handler_contexts=ABSENT, *args):
    return self.write(obj, data, ABSENT if (context, handler_contexts, args) == (ABSENT, ABSENT, ()) else context)


def f_posonly(self, obj, data, handler_context=ABSENT, /):
    return self.write(obj, data, handler_context)


def f_kwargs(self, obj, data, **kwargs):
    return self.write(obj, data, kwargs.get("handler_context", ABSENT) if kwargs else ABSENT)


def f_starred(self, obj, data, **handler_context):
    return self.write(obj, data, handler_context.get("handler_context", ABSENT))


def r_none(self, data):
    return self.read(data, ABSENT)


def r_default(self, data, handler_context=ABSENT):
    return self.read(data, handler_context)


def r_kwonly(self, data, *, handler_context=ABSENT):
    return self.read(data, handler_context)


def r_other(self, data, context=ABSENT, handler_contexts=ABSENT, *args):
    return self.read(data, ABSENT if (context, handler_contexts, args) == (ABSENT, ABSENT, ()) else context)


def r_posonly(self, data, handler_context=ABSENT, /):
    return self.read(data, handler_context)


def r_kwargs(self, data, **kwargs):
    return self.read(data, kwargs.get("handler_context", ABSENT) if kwargs else ABSENT)


def r_starred(self, data, **handler_context):
    return self.read(data, handler_context.get("handler_context", ABSENT))


FLATTENS = {"kwargs": f_kwargs, "starred": f_starred, "none": f_none, "default": f_default, "kwonly": f_kwonly, "other": f_other, "posonly": f_posonly,
            "wrapped": logged(f_kwonly), "wrapped_none": logged(f_none)}
RESTORES = {"kwargs": r_kwargs, "starred": r_starred, "none": r_none, "default": r_default, "kwonly": r_kwonly, "other": r_other, "posonly": r_posonly,
            "wrapped": logged(r_kwonly), "wrapped_none": logged(r_none)}
ACCEPTS = {"starred", "default", "kwonly", "wrapped"}


def make_handler(f, r):
    return type(f"H_{f}_{r}", (Handler,), {"flatten": FLATTENS[f], "restore": RESTORES[r], "signature": (f, r)})


class StringHandler(Handler):
    def flatten(self, obj, data):
        LOG.append(("flatten", obj, dict(data), ABSENT, type(self), self.context))
        return {AsString: "a string", AsNull: None, AsNumber: 5}[type(obj)]


class Turned(Base):
    """Decodes to something of another type."""


class TurnedHandler(Handler):
    result = None

    def restore(self, data):
        LOG.append(("restore", data, None, ABSENT, type(self), self.context))
        parts = [self.context.restore(p, reset=False) for p in data["parts"]]
        return TurnedHandler.result(parts)


DEFAULT = {
    Exact: ("none", "none", False, False),
    Kw: ("kwonly", "kwonly", True, False),
    ByInstance: ("default", "none", False, True),
    DictDerived: ("none", "default", False, False),
    ListDerived: ("kwonly", "none", False, False),
    SetDerived: ("none", "none", False, True),
    Hooks: ("default", "default", True, False),
    Slotted: ("none", "kwonly", True, True),
    Falsy: ("none", "none", False, False),
    Iterating: ("none", "none", False, False),
    Callable: ("none", "none", False, False),
}
SIGNATURE = {}


def install(plan=DEFAULT):
    uninstall()
    for cls, (f, r, base, instance) in plan.items():
        h = make_handler(f, r)
        handlers.register(cls, h(None) if instance else h, base=base)
        SIGNATURE[cls] = (f, r)
    for cls in (KwChild, KwGrandChild):
        SIGNATURE[cls] = SIGNATURE[Kw]
    for cls in (AsString, AsNull, AsNumber):
        handlers.register(cls, StringHandler)
    handlers.register(Turned, TurnedHandler)


def uninstall():
    for cls in (*CLASSES, AsString, AsNull, AsNumber, Turned):
        handlers.unregister(cls)
