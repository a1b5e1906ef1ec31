"""Classes the explored object graphs are made of.

They live in an importable module because jsonpickle restores classes by name.
"""

import collections
import dataclasses
import enum
import typing

from jsonpickle import handlers


class Plain:
    pass


class PlainChild(Plain):
    pass


class Outer:
    class Inner:
        pass

    class Mid:
        class Deep:
            pass


class WithInit:
    """Construction needs arguments; restoring must not call __init__."""

    def __init__(self, a, b):
        self.a = a
        self.b = b


class InitCounts:
    calls = 0

    def __init__(self):
        type(self).calls += 1
        self.a = "from init"


class ClassDefaults:
    a = "class level"
    b = ()


class Slots:
    __slots__ = ("a", "b")


class SlotsChild(Slots):
    __slots__ = ("c",)


class SlotsStr:
    __slots__ = "a"


class SlotsPrivate:
    __slots__ = ("__a", "b")

    def fill(self, *v):
        if len(v) > 0:
            self.__a = v[0]
        if len(v) > 1:
            self.b = v[1]


class SlotsList:
    __slots__ = ["a", "b"]  # noqa: RUF023


class SlotNames:
    __slots__ = ("A", "_", "_a", "_a_", "a", "a_", "a__", "append", "args", "class_", "default_factory", "items", "keys", "state", "x1", "é")


@dataclasses.dataclass(frozen=True)
class FrozenBySlots:
    __slots__ = ("a", "b_")
    a: object
    b_: object


class Private:
    """Name-mangled attributes."""

    def fill(self, *v):
        if len(v) > 0:
            self.__a = v[0]
        if len(v) > 1:
            self.b = v[1]


class PrivateChild(Private):
    pass


@dataclasses.dataclass
class Data:
    a: typing.Any = None
    b: typing.Any = None


@dataclasses.dataclass(frozen=True)
class Frozen:
    a: typing.Any = None
    b: typing.Any = None


@dataclasses.dataclass(slots=True)
class DataSlots:
    a: typing.Any = None
    b: typing.Any = None


@dataclasses.dataclass(eq=False)
class DataNoEq:
    a: typing.Any = None
    b: typing.Any = None


class ListSub(list):
    pass


class DictSub(dict):
    pass


class SetSub(set):
    pass


class TupleSub(tuple):
    pass


class StrSub(str):
    pass


class AttrDict(dict):
    """The d.key is d['key'] idiom."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.__dict__ = self


Point = collections.namedtuple("Point", "x y")


class TypedPoint(typing.NamedTuple):
    x: object
    y: object = None


class Color(enum.Enum):
    RED = 1
    BLUE = "blue"


class Level(enum.IntEnum):
    LOW = 1
    HIGH = 2


class Perm(enum.Flag):
    R = 1
    W = 2


class IntPerm(enum.IntFlag):
    R = 1
    W = 2


class StrEn(enum.StrEnum):
    A = "a"


class Err(Exception):
    pass


class ErrAttrs(Exception):
    def __init__(self, a, b):
        super().__init__(a, b)
        self.a = a
        self.b = b


class ErrKw(Exception):
    def __init__(self, message, *, code):
        super().__init__(message)
        self.code = code


class GetSet:
    """__getstate__/__setstate__ with a state that is not the __dict__."""

    def __getstate__(self):
        return {"packed": [getattr(self, "a", None), getattr(self, "b", None)]}

    def __setstate__(self, state):
        self.a, self.b = state["packed"]


class GetSetTuple:
    def __getstate__(self):
        return (getattr(self, "a", None), getattr(self, "b", None))

    def __setstate__(self, state):
        self.a, self.b = state


class GetOnly:
    def __getstate__(self):
        return dict(self.__dict__)


def rebuild(*args):
    r = Reduced()
    for name, v in zip("ab", args):
        setattr(r, name, v)
    return r


class Reduced:
    """Everything goes through the arguments of __reduce__."""

    def __reduce__(self):
        return (rebuild, (getattr(self, "a", None), getattr(self, "b", None)))


class ReduceState:
    def __reduce__(self):
        return (ReduceState, (), dict(self.__dict__))


class ReduceSetState:
    def __reduce__(self):
        return (ReduceSetState, (), {"s": [getattr(self, "a", None), getattr(self, "b", None)]})

    def __setstate__(self, state):
        self.a, self.b = state["s"]


class NewArgs:
    def __new__(cls, a=None, b=None):
        self = super().__new__(cls)
        self.a = a
        self.b = b
        return self

    def __getnewargs__(self):
        return (self.a, self.b)


class NewArgsEx:
    def __new__(cls, a=None, *, b=None):
        self = super().__new__(cls)
        self.a = a
        self.b = b
        return self

    def __getnewargs_ex__(self):
        return ((self.a,), {"b": self.b})


class Handled:
    pass


class HandledHandler(handlers.BaseHandler):
    def flatten(self, obj, data):
        data["parts"] = [
            self.context.flatten(getattr(obj, n, None), reset=False) for n in "ab"
        ]
        return data

    def restore(self, data):
        obj = Handled()
        obj.a, obj.b = [self.context.restore(p, reset=False) for p in data["parts"]]
        return obj


handlers.register(Handled, HandledHandler)


class Tagged:
    """Hashable by value; used inside sets and as dictionary keys."""

    def __init__(self, tag):
        self.tag = tag

    def __eq__(self, other):
        return type(other) is Tagged and self.tag == other.tag

    def __hash__(self):
        # also works while the object is still being restored
        return hash(("Tagged", self.__dict__.get("tag")))


class Ident:
    """Hashable by identity."""

    tag = "ident"


class Counter0:
    """Bound methods of it are stored."""

    def __init__(self, n):
        self.n = n

    def value(self):
        return self.n


class Mixed(Slots):
    """Inherits slots and has a __dict__ as well."""


class MixedDict(Slots):
    __slots__ = ("__dict__", "c")


# --- further class shapes -------------------------------------------------------


class _Underscore:
    __slots__ = ("__a", "b")

    def fill(self, a, b):
        self.__a = a
        self.b = b


class WithGetattr:
    """Unknown attributes are looked up elsewhere."""

    def __getattr__(self, name):
        if name.startswith("virtual_"):
            return name
        raise AttributeError(name)


class WithSetattr:
    """Records assignments, stores them as usual."""

    def __setattr__(self, name, value):
        object.__setattr__(self, name, value)


class WithProperty:
    def __init__(self):
        self._x = None

    @property
    def x(self):
        return self._x

    @x.setter
    def x(self, v):
        self._x = v

    @property
    def readonly(self):
        return "computed"

    @classmethod
    def make(cls):
        return cls()

    @staticmethod
    def stat():
        return 1


class WithCall:
    def __call__(self):
        raise RuntimeError("must not be called")


class WithItems:
    """Looks like a container, is none."""

    def __getitem__(self, k):
        raise RuntimeError("must not be called")

    def __iter__(self):
        raise RuntimeError("must not be called")

    def __len__(self):
        return 0

    def __contains__(self, x):
        raise RuntimeError("must not be called")


class WithAppend:
    def append(self, x):
        raise RuntimeError("must not be called")

    def add(self, x):
        raise RuntimeError("must not be called")

    def extend(self, x):
        raise RuntimeError("must not be called")

    def update(self, x):
        raise RuntimeError("must not be called")


class BadEq:
    __hash__ = None

    def __eq__(self, other):
        raise RuntimeError("must not be compared")


class BadRepr:
    def __repr__(self):
        raise RuntimeError("must not be printed")

    __str__ = __repr__


class BadHash:
    def __hash__(self):
        raise RuntimeError("must not be hashed")

    def __eq__(self, other):
        return self is other


class BadBool:
    def __bool__(self):
        raise RuntimeError("must not be tested")


class Meta(type):
    marker = 1

    def __call__(cls, *a, **k):
        raise RuntimeError("must not be called")


class WithMeta(metaclass=Meta):
    pass


T = typing.TypeVar("T")


class Box(typing.Generic[T]):
    pass


class NewOnly:
    def __new__(cls):
        self = super().__new__(cls)
        self.made = "by new"
        return self


class ListInit(list):
    def __init__(self, a, b):
        super().__init__([a, b])


class DictInit(dict):
    def __init__(self, a, b):
        super().__init__(a=a, b=b)


class SetInit(set):
    def __init__(self, a, b):
        super().__init__([a, b])


class TupleNew(tuple):
    __slots__ = ()

    def __new__(cls, *items):
        return super().__new__(cls, items)

    def __getnewargs__(self):
        return tuple(self)


class PointSub(Point):
    def norm(self):
        return self.x


class PointSlots(Point):
    __slots__ = ()


Wide = collections.namedtuple("Wide", "a b c d e f g", defaults=(1, 2))
Renamed = collections.namedtuple("Renamed", "a def b", rename=True)
Empty = collections.namedtuple("Empty", "")


class Shape(enum.Enum):
    SQUARE = (1, 2)
    CIRCLE = [1]  # unhashable value
    ALIAS = (1, 2)
    NONE = None
    FALSE = False

    def area(self):
        return 1


class Planet(enum.Enum):
    EARTH = (1.0, "e")
    MARS = (2.0, "m")

    def __init__(self, mass, code):
        self.mass = mass
        self.code = code


class Auto(enum.Enum):
    A = enum.auto()
    B = enum.auto()


class MixEnum(float, enum.Enum):
    X = 1.5


class BytesEnum(bytes, enum.Enum):
    X = b"x"


class Holder:
    class Kind(enum.Enum):
        A = 1

    class IntKind(enum.IntEnum):
        A = 0


class ErrNew(Exception):
    def __new__(cls, *a):
        self = super().__new__(cls, *a)
        self.made = True
        return self


class ErrStr(ValueError):
    def __str__(self):
        return "text"


@dataclasses.dataclass
class PostInit:
    a: int
    b: int = dataclasses.field(init=False)
    c: dataclasses.InitVar = None

    def __post_init__(self, c):
        self.b = self.a * 2


def make_plain():
    o = Plain()
    o.a = [1]
    return o


class Maker:
    """A callable object."""

    def __call__(self):
        return [1]


class CountingIter:
    """Yields the given items and counts how many were taken."""

    def __init__(self, items):
        self.items = items
        self.taken = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.taken >= len(self.items):
            raise StopIteration
        self.taken += 1
        return self.items[self.taken - 1]
