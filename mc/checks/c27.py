"""C27: presentation options do not change the decoded value."""

import copy
import decimal
import itertools
import json
import warnings

import jsonpickle
from jsonpickle.backend import JSONBackend

from .. import graphs, rt, zoo
from ..core import Check, Skip, Violation
from ..snap import first_difference, snap
from ..values import GROUPS, V
from .c10 import PLAIN, PLAIN_KINDS

FORMATS = [
    {},
    {"indent": 2},
    {"indent": 0},
    {"indent": "\t"},
    {"separators": (",", ":")},
    {"separators": (" , ", " : "), "indent": 1},
]
SWITCHES = [
    {"use_base85": True},
    {"warn": True},
    {"include_properties": True},
    {"use_decimal": True},
    {"numeric_keys": True},
    {"max_depth": 60},
    {"handle_readonly": True},
    {"sorted": True},
]


def merged(*parts):
    return {k: v for p in parts for k, v in p.items()}


ALL = [merged(f, *c) for f in FORMATS[::2] for n in range(len(SWITCHES) + 1) for c in itertools.combinations(SWITCHES, n)]
SINGLE = FORMATS + SWITCHES
PAIRS = SINGLE + [merged(a, b) for a, b in itertools.combinations(SINGLE[1:], 2) if not set(a) & set(b)]

NAMES = [n for g, ns in GROUPS.items() if g not in ("opaque", "nonfinite") for n in ns]
# read-only attributes are left out with handle_readonly
FROZEN = {n for n in NAMES if n.startswith(("frozen", "slots_frozen"))}


class SlotsBA:
    __slots__ = ("b", "a")


class SlotsDictBA:
    __slots__ = ("b", "a", "__dict__")


class Computed:
    """Properties with all sorts of values, some of them shared with attributes."""

    plain = 5
    shared_default = ()

    @property
    def number(self):
        return 5

    @property
    def text(self):
        return "json://"

    @property
    def nothing(self):
        return None

    @property
    def items(self):
        return [1, {"a": 2}]

    @property
    def absent(self):
        raise AttributeError("absent")

    @property
    def other(self):
        p = zoo.Plain()
        p.x = [1]
        return p

    @property
    def first(self):
        return getattr(self, "a", None) if isinstance(getattr(self, "a", None), (Computed, zoo.Plain)) else 1

    @property
    def settable(self):
        b = self.__dict__.get("b")
        return b if isinstance(b, (int, str, zoo.Plain)) else None

    @settable.setter
    def settable(self, v):
        raise RuntimeError("properties are not restored")

    @classmethod
    def build(cls):
        raise RuntimeError("not called")

    def method(self):
        raise RuntimeError("not called")


class ComputedSlots:
    __slots__ = ("a", "b")

    @property
    def number(self):
        return 7

    @property
    def other(self):
        p = zoo.Plain()
        p.y = 2
        return p


class ComputedList(list):
    @property
    def size(self):
        return len(self)


def _late(o, cs):
    for n, c in zip("cba", cs):
        setattr(o, n, c)


def _late_items(d, cs):
    for n, c in zip(["c", "b", "a"], cs):
        d[n] = c


def _two(o, cs):
    for n, c in zip("ba", cs):
        setattr(o, n, c)


# objects whose attributes or items come in reverse order
graphs.kind("z_dict", (1, 2, 3), shell=dict, fill=_late_items)
graphs.kind("z_plain", (1, 2, 3), shell=zoo.Plain, fill=_late, hashable=True)
graphs.kind("z_slots", (1, 2), shell=SlotsBA, fill=_two, hashable=True)
graphs.kind("z_data", (2,), shell=zoo.Data, fill=_two)
graphs.kind("z_getonly", (1, 2), shell=zoo.GetOnly, fill=_late, hashable=True)
graphs.kind("z_ddict", (1, 2), shell=lambda: __import__("collections").defaultdict(list), fill=_late_items)
graphs.kind("z_items", (1, 2), shell=lambda: zoo.DictSub(), fill=_late_items)
graphs.kind("z_listsub", (1, 2), shell=zoo.ListSub, fill=_late)
graphs.kind("z_dictsub", (1, 2), shell=zoo.DictSub, fill=lambda o, cs: (setattr(o, "x", cs[0]), o.update(Z=cs[-1], b=cs[0])))
graphs.kind("z_mixed", (2,), shell=SlotsDictBA, fill=lambda o, cs: (setattr(o, "b", cs[0]), setattr(o, "c", cs[1])), hashable=True)
graphs.kind("z_error", (1, 2), shell=lambda: zoo.Err("e"), fill=_late, hashable=True)
graphs.kind("computed", (1, 2), shell=Computed, fill=_late, hashable=True)
graphs.kind("computed_slots", (1, 2), shell=ComputedSlots, fill=_two, hashable=True)
graphs.kind("computed_list", (1, 2), shell=ComputedList, fill=lambda o, cs: o.extend(cs))

SORTABLE = ["z_dict", "z_plain", "z_slots", "z_data", "z_getonly", "z_ddict", "z_items", "z_listsub", "z_dictsub", "z_mixed", "z_error", "list", "tuple", "odict", "deque", "reduce_state", "newargs"]
KINDS = [k for k in graphs.KINDS if k not in ("set", "set_sub", "frozen") and not k.startswith(("z_", "computed"))]
LEAVES = [1, "s"]


def widest(kinds):
    return {k: (max(a for a in graphs.KINDS[k].arities if a < 3),) for k in kinds}


def sorting_backend():
    backend = JSONBackend()
    backend.set_preferred_backend("json")
    for name in ("json", "simplejson"):
        backend.set_encoder_options(name, sort_keys=True)
    return backend


def without_properties(doc):
    if isinstance(doc, dict):
        return {k: without_properties(v) for k, v in doc.items() if k != "py/property"}
    if isinstance(doc, list):
        return [without_properties(v) for v in doc]
    return doc


PROPERTY_NAMES = ["p", "_p", "p_", "p2", "pP", "_p__", "p__p", "keys", "items", "default_factory", "size", "name", "a1", "context"]
PROPERTY_VALUES = [0, None, "", "text", 2.5, True, [1, [2]], {"a": {"b": 1}}, zoo.Plain()]


class Unready:
    def __getstate__(self):
        raise TypeError("not now")


WARNED = [lambda: 0, Unready()]


class C27(Check):
    id = "C27"
    technique = "exhaustive enumeration of option combinations over values and bounded object graphs, compared with the run without options"
    rule = "every combination within the bound; a state is a distinct encoded text"

    @property
    def bounds(self):
        return {"option combinations": len(ALL), "values": len(NAMES), "objects per graph": 4, "leaves": len(LEAVES)}

    def setup(self):
        self.sorting = sorting_backend()
        self.base = None
        self.caught = []
        warnings.simplefilter("always")
        warnings.showwarning = lambda message, category, *args: self.caught.append((message, category))

    def cases(self):
        for n in NAMES:
            for o in range(len(ALL)):
                yield ("value", n, "bare", o)
        for n in NAMES:
            for c in ("shared", "attr", "dict", "tuple", "dictsub", "state", "slots", "deep"):
                for o in range(len(PAIRS)):
                    yield ("value", n, c, -1 - o)
        for t in graphs.terms(KINDS, 2, (0,), widest(KINDS)):
            for o in range(len(FORMATS), len(SINGLE)):
                yield ("graph", t, -1 - o)
        core = ["dict", "plain", "computed"]
        for t in graphs.terms(core, 3, (0,), widest(core)):
            for o in range(len(FORMATS), len(SINGLE)):
                yield ("graph", t, -1 - o)
        computed = ["computed", "computed_slots", "computed_list", "plain", "list"]
        for t in graphs.terms(computed, 2, (0, 1), widest(computed)):
            for o in range(len(PAIRS)):
                yield ("graph", t, -1 - o)
        for t in graphs.terms(["computed", "computed_slots"], 2, (0,)):
            for o in range(len(ALL)):
                yield ("graph", t, o)
        by_sorting = -1 - SINGLE.index({"sorted": True})
        for t in graphs.terms(SORTABLE, 2, (0,), rt.arities(2)):
            yield ("graph", t, by_sorting)
        for kinds in (["z_dict", "z_plain", "z_slots", "list"], ["z_dict", "z_getonly", "z_ddict", "z_items"], ["z_plain", "z_listsub", "z_data", "tuple"],
                      ["z_mixed", "z_dictsub", "list"], ["z_mixed", "z_error", "z_dict"]):
            for t in graphs.terms(kinds, 3, (0,), widest(kinds)):
                yield ("graph", t, by_sorting)
        three = ["z_dict", "z_plain"] if self.thorough else ["z_dict"]
        for t in graphs.terms(three, 3, (0,), {k: (1, 2, 3) for k in three}):
            yield ("graph", t, by_sorting)
        for t in graphs.terms(["z_dict"], 4, (0,), {"z_dict": (1, 2)}):
            yield ("graph", t, by_sorting)
        for v, c, o in itertools.product(range(len(DECIMALS)), range(6), range(len(PAIRS))):
            yield ("decimal", v, c, o)
        for v in range(len(NUMERIC)):
            for o in range(len(ALL)):
                yield ("keys", v, o)
        for names in itertools.chain(itertools.combinations(PROPERTY_NAMES, 1), itertools.combinations(PROPERTY_NAMES, 2)):
            for v, slotted, o in itertools.product(range(len(PROPERTY_VALUES)), (False, True), range(len(FORMATS))):
                yield ("properties", names, v, slotted, o)
        for v, place, o in itertools.product(range(len(WARNED)), range(5), range(len(PAIRS))):
            yield ("warned", v, place, o)

    def run_case(self, case):
        getattr(self, "run_" + case[0])(*case[1:])

    def options(self, o):
        return ALL[o] if o >= 0 else PAIRS[-1 - o]

    def run_value(self, name, context, o):
        opts = self.options(o)
        if "handle_readonly" in opts and name in FROZEN:
            raise Skip
        if "include_properties" in opts and name not in PLAIN:
            raise Skip
        if "use_decimal" in opts and name.startswith("dec_"):
            raise Skip
        self.compare((name, context), lambda: rt.CONTEXTS[context](V[name]), opts)

    def run_graph(self, term, o):
        opts = self.options(o)
        if "include_properties" in opts:
            allowed = set(PLAIN_KINDS) | {"computed", "computed_slots", "computed_list", "getset", "v", "r"}
            if not kinds_of(term) <= allowed:
                raise Skip
        if not graphs.closable(term):
            raise Skip
        self.compare(term, lambda: graphs.build(term, LEAVES), opts)

    def compare(self, key, make, opts):
        opts = dict(opts)
        is_sorted = opts.pop("sorted", False)
        if is_sorted:
            opts["backend"] = self.sorting
        snapping = {"ordered": not is_sorted}
        base_key = (key, is_sorted)
        if self.base is None or self.base[0] != base_key:
            del self.caught[:]
            text = jsonpickle.encode(make())
            self.quiet()
            self.base = (base_key, text, json.loads(text), snap(jsonpickle.decode(text), **snapping))
        _, base_text, base_doc, want = self.base
        value = make()
        del self.caught[:]
        try:
            text = jsonpickle.encode(value, **opts)
        except TypeError as e:
            if is_sorted and opts.get("warn") and "__slots__" in str(e):
                raise Skip from None  # documented
            raise
        self.step()
        self.state(text)
        if not opts.get("warn"):
            self.quiet()
        if not opts.get("use_base85") and not is_sorted:
            doc = json.loads(text)
            if opts.get("include_properties"):
                doc = without_properties(doc)
            if doc != base_doc or json.dumps(doc) != json.dumps(base_doc):
                raise Violation(f"options {opts}: the document\n  {text[:500]}\n  instead of\n  {base_text[:500]}")
        back = jsonpickle.decode(text, handle_readonly=opts.get("handle_readonly", False))
        self.step()
        got = snap(back, **snapping)
        if got != want:
            raise Violation(f"{first_difference(want, got)}\n  options {opts}, sorted {is_sorted}\n  text {text[:500]}\n  without options {base_text[:500]}")

    def quiet(self):
        caught = [m for m, c in self.caught if not issubclass(c, (ResourceWarning, DeprecationWarning))]
        if caught:
            raise Violation(f"warning without warn: {caught[0]}")

    def run_properties(self, names, v, slotted, o):
        """Every property is written, none is restored."""
        value = PROPERTY_VALUES[v]
        body = {n: property(lambda self: copy.copy(value)) for n in names}
        cls = type("Props", (), {"__slots__": ("a", "b"), **body} if slotted else body)
        x = cls()
        x.a, x.b = 1, [2]
        opts = {**FORMATS[o], "include_properties": True}
        text = jsonpickle.encode([x, x.b, x], **opts)
        self.step()
        self.state(text)
        doc = json.loads(text)
        got = doc[0].get("py/property", {})
        want = {"py/property": {}, "py/object": "mc.zoo.Plain"} if isinstance(value, zoo.Plain) else value
        for n in names:
            if n not in got or json.dumps(got[n], sort_keys=True) != json.dumps(want, sort_keys=True):
                raise Violation(f"property {n} is {got.get(n)!r} instead of {want!r}: {text}")
        back = jsonpickle.decode(text, classes={doc[0]["py/object"]: cls})
        self.step()
        y = back[0]
        if type(y) is not cls or (y.a, y.b) != (1, [2]) or back[1] is not y.b or back[2] is not y or set(getattr(y, "__dict__", ())) - {"a", "b"}:
            raise Violation(f"decoded to {back!r} with {getattr(y, '__dict__', None)}: {text}")

    def run_warned(self, v, place, o):
        """What cannot be stored is reported with warn, and only then."""
        opts = dict(PAIRS[o])
        s = [1]
        x = WARNED[v]
        value = [[x], [[x], s, s], (x, s, s), {"a": [s, x, s]}, zoo.ListSub([s, x, s])][place]
        if opts.pop("sorted", False):
            opts["backend"] = self.sorting
        opts.pop("include_properties", None)
        opts.pop("handle_readonly", None)
        expected = opts.get("warn", False)
        del self.caught[:]
        text = jsonpickle.encode(value, **opts)
        self.step()
        self.state(text)
        if bool(self.caught) != expected:
            raise Violation(f"{len(self.caught)} warnings with {opts}: {text}")
        plain = jsonpickle.encode(value)
        del self.caught[:]
        a, b = snap(jsonpickle.decode(plain)), snap(jsonpickle.decode(text))
        if a != b:
            raise Violation(f"{first_difference(a, b)} with {opts}: {text}")

    def run_decimal(self, v, c, o):
        """Decimals that pass through a backend made for them."""
        opts = dict(PAIRS[o])
        if opts.pop("sorted", False) or "include_properties" in opts or "handle_readonly" in opts:
            raise Skip
        opts["use_decimal"] = True
        backend = JSONBackend()
        backend.set_preferred_backend("simplejson")
        backend.set_encoder_options("simplejson", use_decimal=True)
        backend.set_decoder_options("simplejson", use_decimal=True)
        d = decimal.Decimal(DECIMALS[v])
        s = [1, "x"]
        p = zoo.Plain()
        p.a, p.b, p.c = d, s, s
        value = [d, [d, s, s], {"a": d, "b": s, "c": s}, (s, d, s), p, {"x": [d, {"y": (d,)}], "y": [d]}][c]
        text = jsonpickle.encode(value, backend=backend, **opts)
        self.step()
        self.state(text)
        back = jsonpickle.decode(text, backend=backend)
        self.step()
        a, b = snap(value), snap(back)
        if a != b:
            raise Violation(f"{first_difference(a, b)}, options {opts}, text {text}")

    def run_keys(self, v, o):
        """String keys that look like numbers stay strings, numbers become their text."""
        value = NUMERIC[v]
        opts = ALL[o]
        if "sorted" in opts and len({type(k) for k in value}) > 1:
            raise Skip  # cannot be sorted
        self.compare(("keys", v), lambda: [dict(value), value, 1], opts)


def kinds_of(term):
    if not term or not isinstance(term[0], str):
        return set()
    out = {term[0]}
    if term[0] not in ("v", "r"):
        for t in term[1]:
            out |= kinds_of(t)
    return out


DECIMALS = ["1.1", "-0.00", "1E+30", "3.14159265358979323846264338327950288", "1e-400", "-1234567890123456789012345678901234567890.5"]
NUMERIC = [{"1": 1}, {"1.0": [1]}, {"true": 1, "null": 2}, {1: 2, "b": 1}, {1.5: 1}, {1: [1], 2: [2]}, {-3: 1}, {10**30: "a"}, {}]
CHECK = C27
