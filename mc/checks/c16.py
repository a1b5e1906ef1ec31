"""C16: missing classes follow on_missing, classes= takes precedence."""

import collections
import enum
import json
import warnings

import jsonpickle
from jsonpickle.errors import ClassNotFoundError
from jsonpickle.unpickler import Unpickler

from .. import graphs, rt, zoo
from ..core import Check, Violation
from ..graphs import KINDS, _attrs, _items, kind
from ..snap import first_difference, snap


def local(name, bases=(), **ns):
    return type(name, bases, {"__module__": "nowhere.deep", "__qualname__": name, **ns})


def _getstate(self):
    return {"packed": [self.__dict__.get("a"), self.__dict__.get("b")]}


def _setstate(self, state):
    self.a, self.b = state["packed"]


Miss = local("Miss")
Other = local("Other")
Slotted = local("Slotted", __slots__=("a", "b"))
Listy = local("Listy", (list,))
Dicty = local("Dicty", (dict,))
State = local("State", __getstate__=_getstate, __setstate__=_setstate)
NewArgs = local("NewArgs", __new__=lambda cls, *a: object.__new__(cls), __getnewargs__=lambda self: (1, [2]))
NewArgsEx = local("KwArgs", __new__=lambda cls, *a, **k: object.__new__(cls), __getnewargs_ex__=lambda self: ((1, [2]), {"k": [3]}))
GONE = {f"nowhere.deep.{c.__name__}": c for c in (Miss, Other, Slotted, Listy, Dicty, State, NewArgs, NewArgsEx)}


Rec = collections.namedtuple("Rec", "x y", module="nowhere.deep")
Tup = local("Tup", (tuple,))
Str = local("Str", (str,))
Err = local("Err", (Exception,))
Reds = local("Reds", __reduce__=lambda self: (Reds, (), {"a": [1], "t": Reds}))
Inner = local("Inner")
Inner.__qualname__ = "Holder.Inner"
Tint = enum.Enum("Tint", {"RED": 1, "BLUE": "b"}, module="nowhere.deep")


def _with(o, **kw):
    vars(o).update(kw)
    return o


# values that name their classes in every kind of tag
NAMING = {
    "type": lambda: (Miss, [Miss]),
    "types": lambda: (Miss, [Miss, {"a": Miss}, (Other, Miss), _with(zoo.Plain(), c=Other)]),
    "member": lambda: (Miss, [_with(Miss(), c=Miss, d=[Miss])]),
    "factory": lambda: (Miss, [collections.defaultdict(Miss, a=1)]),
    "record": lambda: (Rec, [Rec(1, [2]), Rec]),
    "tuple": lambda: (Tup, [Tup((1, [2])), Tup()]),
    "str": lambda: (Str, [_with(Str("s"), a=[1])]),
    "error": lambda: (Err, [_with(Err("m"), a=[1])]),
    "reduced": lambda: (Reds, [_with(Reds(), a=[1], t=Reds)]),
    "nested": lambda: (Inner, [Inner, _with(Inner(), a=[1])]),
    "enum": lambda: (Tint, [Tint.RED, Tint.BLUE, Tint]),
}
WAYS = {
    "class": lambda c: c,
    "list": lambda c: [Other, c],
    "tuple": lambda c: (c, Slotted),
    "set": lambda c: {c},
    "name": lambda c: {f"nowhere.deep.{c.__qualname__}": c},
    "short": lambda c: {c.__name__: c},
    "mapping": lambda c: {c: c},
    "mixed": lambda c: [{"Other": Target}, [c]],
}
# written by older versions
SEQ_TEXT = '{"py/object": "nowhere.deep.Rec", "py/seq": [1, [2]]}'


class Target:
    """Stands in for other classes."""


class TargetState(Target):
    def __setstate__(self, state):
        self.got = state


def _new(cls):
    return lambda: object.__new__(cls)


if "m_plain" not in KINDS:
    kind("m_plain", (0, 1, 2), shell=Miss, fill=_attrs)
    kind("m_other", (0, 1, 2), shell=Other, fill=_attrs)
    kind("m_slots", (0, 1, 2), shell=Slotted, fill=_attrs)
    kind("m_list", (0, 1, 2), shell=Listy, fill=lambda o, cs: o.extend(cs))
    kind("m_list_attr", (1, 2), shell=Listy, fill=lambda o, cs: (setattr(o, "z", cs[0]), o.extend(cs[1:])))
    kind("m_dict", (0, 1, 2), shell=Dicty, fill=_items)
    kind("m_dict_attr", (1, 2), shell=Dicty, fill=lambda o, cs: (o.__setitem__("k", cs[0]), setattr(o, "z", cs[-1])))
    kind("m_state", (0, 2), shell=State, fill=_attrs)
    kind("m_newargs", (1,), shell=_new(NewArgs), fill=_attrs)
    kind("m_newargsex", (1,), shell=_new(NewArgsEx), fill=_attrs)
MISSING = [k for k in KINDS if k.startswith("m_")]

FORMS = {
    "none": lambda: (None, {}),
    "class": lambda: (Miss, {"nowhere.deep.Miss": Miss}),
    "list": lambda: ([Other, Miss], {"nowhere.deep.Miss": Miss, "nowhere.deep.Other": Other}),
    "tuple": lambda: ((Miss,), {"nowhere.deep.Miss": Miss}),
    "set": lambda: ({Miss, Slotted}, {"nowhere.deep.Miss": Miss, "nowhere.deep.Slotted": Slotted}),
    "empty": lambda: ([], {}),
    "edict": lambda: ({}, {}),
    "names": lambda: ({"nowhere.deep.Miss": Target}, {"nowhere.deep.Miss": Target}),
    "names2": lambda: ({"nowhere.deep.Miss": Other, "nowhere.deep.Other": Miss}, {"nowhere.deep.Miss": Other, "nowhere.deep.Other": Miss}),
    "short": lambda: ({"Miss": Target}, {"nowhere.deep.Miss": Target}),
    "both": lambda: ({"Miss": Other, "nowhere.deep.Miss": Target}, {"nowhere.deep.Miss": Target}),
    "classes": lambda: ({Miss: Target}, {"nowhere.deep.Miss": Target}),
    "classes2": lambda: ({Other: Miss, "nowhere.deep.Miss": Other}, {"nowhere.deep.Other": Miss, "nowhere.deep.Miss": Other}),
    "known": lambda: ({"mc.zoo.Plain": Target}, {"mc.zoo.Plain": Target}),
    "known_short": lambda: ({"Plain": Target}, {"mc.zoo.Plain": Target}),
    "known_class": lambda: ({zoo.Plain: Target}, {"mc.zoo.Plain": Target}),
    "unrelated": lambda: ([Target], {}),
    "state": lambda: ({"State": TargetState}, {"nowhere.deep.State": TargetState}),
    "all": lambda: (list(GONE.values()), dict(GONE)),
    "partial": lambda: ({"deep.Miss": Target, "nowhere": Target, "iss": Target, "miss": Target}, {}),
}
POLICIES = ["ignore", "warn", "error", "function", "IGNORE", "Warn", "ERROR", "lambda"]




class Reference:
    """Decodes the documents of this check; what it cannot find stays as it is."""

    def __init__(self, supplied):
        self.supplied = supplied
        self.objs = []
        self.missing = []

    def find(self, name):
        if name in self.supplied:
            return self.supplied[name]
        return zoo.__dict__[name.split(".")[-1]] if name.startswith("mc.zoo.") else None

    def go(self, n):
        if isinstance(n, list):
            out = []
            self.objs.append(out)
            out.extend(self.go(v) for v in n)
            return out
        if not isinstance(n, dict):
            return n
        if "py/id" in n:
            return self.objs[n["py/id"]]
        if "py/tuple" in n:
            return tuple(self.go(v) for v in n["py/tuple"])
        if "py/object" in n:
            return self.instance(n)
        out = {}
        self.objs.append(out)
        for k, v in n.items():
            out[k] = self.go(v)
        return out

    def instance(self, n):
        cls = self.find(n["py/object"])
        at = len(self.objs)
        if cls is None:
            self.missing.append(n["py/object"])
            self.objs.append(n)
            for k, v in n.items():
                if k in ("py/seq", "py/newargsex"):
                    [self.go(i) for i in v]
                else:
                    self.go(v)
            return n
        self.objs.append(None)
        args = n.get("py/newargs", {"py/tuple": []})
        ex = n.get("py/newargsex", [{"py/tuple": []}, {}])
        o = cls.__new__(cls, *self.go(args), *self.go(ex[0]), **(self.go(ex[1]) if ex[1] else {}))
        self.objs[at] = o
        for k, v in n.items():
            if k == "__dict__" and isinstance(o, dict):
                o.__dict__.update(self.go(v))
            elif k == "py/state":
                o.__setstate__(self.go(v))
            elif k.startswith("py/"):
                continue
            elif isinstance(o, dict):
                o[k] = self.go(v)
            else:
                setattr(o, k, self.go(v))
        for v in n.get("py/seq", ()):
            o.append(self.go(v))
        return o




class C16(Check):
    id = "C16"
    technique = "exhaustive enumeration of documents mixing known, supplied and missing classes, all policies and forms, against a reference decoder"
    rule = "every document of the bounded graphs under every policy and every form of classes=; a state is a document with policy and form"

    @property
    def bounds(self):
        return {"objects": "3 for every missing kind with lists, dictionaries and known objects", "policies": len(POLICIES),
                "forms of classes=": len(FORMS), "mixed missing kinds": 3 if self.thorough else 2}

    def cases(self):
        for m in MISSING:
            for t in graphs.terms(["list", "plain", m], 2, (0,) if self.thorough else (), rt.arities(2)):
                for f in FORMS:
                    for p in POLICIES:
                        yield ("g", f, p, t)
            for t in graphs.terms(["list", "dict", "plain", "tuple", m], 2, (0,), rt.arities(2)):
                for f in FORMS:
                    yield ("g", f, "function", t)
            for t in graphs.terms(["list", "plain", m], 3, (), rt.arities(2)):
                for f in ("none", "class", "all") if self.thorough else ("none",):
                    yield ("g", f, "function", t)
        for m in MISSING:
            for n in MISSING:
                if m < n:
                    for t in graphs.terms([m, n], 3 if self.thorough else 2, (0,), rt.arities(2)):
                        for f in FORMS:
                            yield ("g", f, "function", t)
        for t in graphs.terms(["list", "m_plain"], 4 if self.thorough else 3, (), {"list": (0, 1, 2), "m_plain": (0, 1, 2)}):
            yield ("g", "none", "function", t)

        for n in NAMING:
            for w in WAYS:
                for p in POLICIES:
                    yield ("n", n, w, p)
        for w in WAYS:
            yield ("s", w)

    def run_naming(self, name, way, policy):
        cls, value = NAMING[name]()
        s = [1]
        x = [s, *value, {"s": s}, value[0], s]
        supplied = WAYS[way](cls)
        others = []
        if Other in self.types(x) and way not in ("list", "mixed"):
            supplied, others = [supplied, Other], [Other]
        if way == "mixed" and Other in self.types(x):
            return
        text = jsonpickle.encode(x)
        self.state((name, way, policy, text))
        got, reaction = self.decode(text, supplied, policy)
        a, b = snap(x), snap(got)
        if a != b:
            raise Violation(f"{first_difference(a, b)} with classes {way} {others}: {text}")
        if reaction:
            raise Violation(f"reaction {reaction} with classes {way}: {text}")
        if way in ("name", "short") and name in ("type", "types", "nested"):
            key = next(iter(WAYS[way](cls)))
            got, _ = self.decode(text, {key: Target, "nowhere.deep.Other": Other}, policy)
            if got[1] is not Target or got[1] is not got[-2]:
                raise Violation(f"{got[1]} instead of the class given as {key}: {text}")

    def types(self, x):
        found = []

        def walk(v):
            if isinstance(v, type):
                found.append(v)
            for c in v.values() if isinstance(v, dict) else v if isinstance(v, (list, tuple)) else vars(v).values() if isinstance(v, zoo.Plain) else ():
                walk(c)

        walk(x)
        return found

    def run_seq(self, way):
        text = f'[[1], {SEQ_TEXT}, {{"py/id": 1}}]'
        got, _ = self.decode(text, WAYS[way](Rec), "ignore")
        want = [[1], Rec(1, [2])]
        want.append(want[0])
        self.state((way, text))
        if snap(got) != snap(want):
            raise Violation(f"{got} with classes {way}: {text}")

    def run_case(self, case):
        if case[0] == "n":
            return self.run_naming(*case[1:])
        if case[0] == "s":
            return self.run_seq(*case[1:])
        _, f, p, term = case
        x = graphs.build(term, [7])
        s = [1]
        text = jsonpickle.encode([s, x, {"s": s, "t": [s]}, x, {"u": []}])
        classes, supplied = FORMS[f]()
        self.state((f, p, text))
        got, reaction = self.decode(text, classes, p)
        ref = Reference(supplied)
        want = ref.go(json.loads(text))
        policy = p.lower()
        if policy == "lambda":
            policy = "function"
        if policy == "error" and ref.missing:
            if reaction != "error":
                raise Violation(f"no error for {ref.missing}: {text}")
            return
        expected = {"ignore": [], "error": [], "warn": ref.missing, "function": ref.missing}[policy]
        if reaction != expected:
            raise Violation(f"reaction {reaction} instead of {expected} with {p}, classes {f}: {text}")
        a, b = snap(want), snap(got)
        if a != b:
            raise Violation(f"{first_difference(a, b)} with {p}, classes {f}: {text}")
        if supplied and p == "ignore":
            again, _ = self.decode(text, None, "ignore")
            want = Reference({}).go(json.loads(text))
            if snap(again) != snap(want):
                raise Violation(f"classes {f} are used in a later call: {text}")
            u = Unpickler()
            u.restore(json.loads(text), classes=classes)
            if snap(u.restore(json.loads(text))) != snap(want):
                raise Violation(f"classes {f} are used in a later call of the same object: {text}")
            self.step(2)

    def decode(self, text, classes, p):
        called = []

        def note(name):
            called.append(name)

        on_missing = {"function": note, "lambda": lambda name: called.append(name)}.get(p, p)
        self.step()
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter("always")
            try:
                got = jsonpickle.decode(text, classes=classes, on_missing=on_missing)
            except ClassNotFoundError:
                return None, "error"
        if p.lower() == "warn":
            names = []
            for w in seen:
                hits = [n for n in GONE if n in str(w.message)]
                if len(hits) != 1:
                    raise Violation(f"warning {w.message}")
                names += hits
            return got, names
        if seen:
            raise Violation(f"warnings {[str(w.message) for w in seen]} with {p}")
        return got, called


CHECK = C16
