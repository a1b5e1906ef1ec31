"""C23: _jsonpickle_exclude hides exactly the named attributes."""

import itertools
import json

import jsonpickle

from .. import exclude_zoo as zoo
from ..core import Check, Violation

OPTIONS = [
    {},
    {"keys": True},
    {"unpicklable": False},
    {"make_refs": False},
    {"unpicklable": False, "make_refs": False},
    {"include_properties": True},
    {"include_properties": True, "unpicklable": False},
    {"max_depth": 9},
    {"use_base85": True, "keys": True},
    {"numeric_keys": True},
    {"handle_readonly": True},
    {"fail_safe": str, "warn": True},
]
VALUES = ("text", "list", "other", "self", "tuple", "none")
CONTEXTS = ("root", "list", "attr", "dict", "twice")
SUBSETS = [s for r in range(4) for s in itertools.combinations(zoo.NAMES, r)]


class C23(Check):
    id = "C23"
    technique = "exhaustive enumeration of class kinds, declarations and attribute subsets"
    rule = "every combination within the bound; a state is a distinct encoded text"

    @property
    def bounds(self):
        return {
            "class kinds": len(zoo.KINDS),
            "declarations": len(zoo.DECLS),
            "excluded subsets": len(SUBSETS),
            "present subsets": len(SUBSETS) if self.thorough else 2,
            "values": len(VALUES),
            "option sets": len(OPTIONS),
            "contexts": len(CONTEXTS) if self.thorough else 3,
        }

    def cases(self):
        for kind, decl, excluded, present in itertools.product(zoo.KINDS, zoo.DECLS, SUBSETS, SUBSETS):
            if kind in zoo.PRIVATE and decl == "instance" and "slots" in kind:
                continue
            if decl == "instance" and zoo.KINDS[kind][1] and kind in ("slots", "slotlist", "slotsbase", "slotsonly_base", "slotstate", "slotprops", "dataslots"):
                continue
            if not self.thorough and present not in (("a", "b"), zoo.NAMES):
                continue
            for value in VALUES:
                if value == "self" and kind == "eq":
                    continue
                yield (kind, decl, excluded, present, value)

    def build(self, kind, decl, excluded, present, value, hidden):
        """Returns the object with the given attributes, with or without the hidden ones."""
        private = kind in zoo.PRIVATE
        written = {n: ("__" + n if private and n in "ab" else n) for n in zoo.NAMES}
        names = [written[n] for n in excluded]
        cls, owner = zoo.cls_for(kind, decl, () if decl == "instance" else tuple(names))
        stored = {n: (f"_{owner.__name__}{w}" if w.startswith("__") else w) for n, w in written.items()}
        o = cls.__new__(cls)
        if kind == "userdict":
            o.data = {}
        shared = ["SHARED"]
        other = zoo.Other()
        for n in zoo.NAMES:
            setattr(other, n, "NESTED-" + n)
        other.d = {n: "INNER-" + n for n in zoo.NAMES}
        other.o = zoo.OtherDict({n: "ITEM-" + n for n in zoo.NAMES})
        other.o.a = "NESTED-a"
        if decl == "instance":
            o._jsonpickle_exclude = list(names)
        todo = [n for n in present if not (hidden and n in excluded)]
        for n in todo:
            mark = f"SECRET-{n}" if n in excluded else f"KEPT-{n}"
            v = {
                "text": lambda: mark,
                "list": lambda: [mark, shared],
                "other": lambda: {"m": mark, "o": other},
                "self": lambda: [o, mark],
                "tuple": lambda: (mark, {mark}, shared),
                "none": lambda: None,
            }[value]()
            setattr(o, stored[n], v)
        o.k = [shared, other]
        if isinstance(o, dict):
            if kind != "counter":
                o.update({n: f"SECRET-{n}" if n in excluded else f"KEPT-{n}" for n in todo})
            o["k"] = o.k
            o["z"] = [shared]
        elif isinstance(o, list):
            o += [1, shared, "a"]
        elif isinstance(o, set):
            o.update(("a",))
        return o, other, shared, stored

    def place(self, context, o, shared):
        if context == "root":
            return o
        if context == "list":
            return [o, shared, [o]]
        if context == "dict":
            return {"a": "OUTER-a", "b": o, "c": shared}
        if context == "twice":
            return [shared, o, o]
        p = zoo.Other()
        p.b, p.a, p.c = "OUTER-b", o, [shared]
        return p

    def run_case(self, case):
        kind, decl, excluded, present, value = case
        for opts in OPTIONS:
            if "include_properties" in opts and (value in ("other", "tuple", "self") or decl == "set" or kind == "slotstate"):
                # properties are written as they are, see C27
                continue
            if value == "self" and opts.get("make_refs") is False:
                # a cycle ends in the repr of the object
                continue
            for context in CONTEXTS if self.thorough else CONTEXTS[1:4]:
                self.one(kind, decl, excluded, present, value, opts, context)

    def one(self, kind, decl, excluded, present, value, opts, context):
        full, other, shared, stored = self.build(kind, decl, excluded, present, value, False)
        text = jsonpickle.encode(self.place(context, full, shared), **opts)
        self.step()
        self.state(text)
        where = f"value {value}, options {opts}, in {context}: {text[:500]}"
        if "SECRET" in text:
            raise Violation(f"excluded attributes were written: {where}")
        part, _, pshared, _ = self.build(kind, decl, excluded, present, value, True)
        expected = jsonpickle.encode(self.place(context, part, pshared), **opts)
        self.step()
        if text != expected:
            raise Violation(f"without the excluded attributes it would be {expected[:500]}: {where}")
        lossy = isinstance(full, (list, set, dict)) and opts.get("unpicklable") is False
        expect = ["NESTED-a", "NESTED-b", "INNER-c", "SHARED"]
        if not (lossy and isinstance(full, set)):
            expect += ["ITEM-a", "ITEM-b"]
        if value in ("text", "list", "other") and not lossy:
            expect += [f"KEPT-{n}" for n in present if n not in excluded]
        if context in ("attr", "dict"):
            expect.append("OUTER-")
        if lossy and isinstance(full, (list, set)):
            expect = []
        missing = [m for m in expect if m not in text]
        if missing:
            raise Violation(f"{missing} left out: {where}")
        if opts.get("unpicklable") is False:
            json.loads(text)
            return
        if opts.get("make_refs") is False and context in ("list", "twice"):
            return
        back = jsonpickle.decode(text, keys=opts.get("keys", False), handle_readonly=opts.get("handle_readonly", False))
        self.step()
        o = {
            "root": lambda: back,
            "list": lambda: back[0],
            "dict": lambda: back["b"],
            "attr": lambda: back.a,
            "twice": lambda: back[1],
        }[context]()
        if type(o) is not type(full):
            raise Violation(f"decoded {type(o)}: {where}")
        for n in zoo.NAMES:
            here = self.own(o, stored[n])
            if n in present and n not in excluded:
                if not here:
                    raise Violation(f"{n} is missing in the decoded object: {where}")
                v, w = getattr(o, stored[n]), getattr(full, stored[n])
                ok = {
                    "text": lambda: v == w,
                    "none": lambda: v is None,
                    "self": lambda: v[0] is o and v[1] == w[1],
                    "list": lambda: v == w,
                    "tuple": lambda: v == w,
                    "other": lambda: v["m"] == w["m"] and type(v["o"]) is zoo.Other and v["o"].__dict__ == other.__dict__,
                }[value]()
                if not ok:
                    raise Violation(f"{n} is {v!r}: {where}")
            elif here:
                raise Violation(f"{n} exists in the decoded object: {where}")
        if o.k[0] != ["SHARED"] or type(o.k[1]) is not zoo.Other or o.k[1].__dict__ != other.__dict__:
            raise Violation(f"k is {o.k!r}: {where}")
        if isinstance(o, dict):
            if any(n in o for n in excluded) or (kind != "counter" and any(n not in o for n in present if n not in excluded)):
                raise Violation(f"items {dict(o)!r}: {where}")
            if o["k"] != o.k and opts.get("make_refs") is not False:
                raise Violation(f"items {dict(o)!r}: {where}")
        elif isinstance(o, (list, set)) and o != full:
            raise Violation(f"contents {o!r}: {where}")
        if context == "dict" and (back["a"] != "OUTER-a" or back["c"] != ["SHARED"]):
            raise Violation(f"the dictionary around it is {back!r}: {where}")
        if context == "attr" and (back.b != "OUTER-b" or back.c != [["SHARED"]]):
            raise Violation(f"the object around it is {back.__dict__!r}: {where}")
        if opts.get("make_refs") is not False:
            if context == "list" and not (back[1] is o.k[0] and back[2][0] is o):
                raise Violation(f"references differ: {where}")
            if context == "twice" and not (back[0] is o.k[0] and back[2] is o):
                raise Violation(f"references differ: {where}")

    def own(self, o, name):
        if name in getattr(o, "__dict__", {}):
            return True
        for base in type(o).__mro__:
            member = vars(base).get(name)
            if member is not None and type(member).__name__ == "member_descriptor":
                try:
                    member.__get__(o)
                except AttributeError:
                    return False
                return True
        return False


CHECK = C23
