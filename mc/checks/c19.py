"""C19: every JSON backend gives the same decoded result."""

import itertools
import json
import sys
import types

import jsonpickle
import jsonpickle.ext.yaml
from jsonpickle.backend import JSONBackend
from jsonpickle.pickler import Pickler
from jsonpickle.unpickler import Unpickler

from .. import graphs, rt
from ..core import Check, Skip, Violation
from ..snap import first_difference, snap
from ..values import GROUPS, V

from .c05 import CORE, DICTS
from .c05 import K as ALL_KEYS

# numbers that some of the backends refuse
REFUSED = (*GROUPS["nonfinite"], "c_m")
K = {n: k for n, k in ALL_KEYS.items() if n not in REFUSED}
CORE_KEYS = [n for n in CORE if n in K]
JSONS = ("json", "simplejson", "ujson")
GROUPED = [n for g, ns in GROUPS.items() if g != "opaque" for n in ns if n not in REFUSED]
TEN = ["list", "dict", "plain", "tuple", "slots", "dict_sub", "getset", "reduced", "deque", "handled"]
OPTS = ({}, {"keys": True}, {"unpicklable": False}, {"make_refs": False})
INDENTS = (None, 0, 1, 2, 7)
SEPARATORS = (None, (",", ":"), (", ", ": "), (" , ", " : "))


def only(name):
    m = JSONBackend()
    for n in JSONS:
        if n != name:
            m.remove_backend(n)
    if name == "yaml":
        if jsonpickle.ext.yaml.register(m) is not True:
            raise Violation("yaml cannot be registered")
    return m


class Spy:
    """A backend module that records its calls and uses json."""

    def __init__(self, name, fails=False):
        self.name, self.fails, self.calls = name, fails, []
        mod = types.ModuleType(name)
        mod.dumps, mod.loads = self.dumps, self.loads
        sys.modules[name] = mod
        self.manager = JSONBackend()
        for n in JSONS:
            self.manager.remove_backend(n)
        self.manager.load_backend(name)

    def dumps(self, obj, **kw):
        self.calls.append(("dumps", kw))
        if self.fails:
            raise RuntimeError(f"{self.name} was used")
        return json.dumps(obj, **kw)

    def loads(self, text, **kw):
        self.calls.append(("loads", kw))
        if self.fails:
            raise RuntimeError(f"{self.name} was used")
        return json.loads(text, **kw)


class Custom:
    """Any object with encode and decode is a backend."""

    def __init__(self):
        self.calls = []

    def encode(self, obj, indent=None, separators=None):
        self.calls.append(("dumps", indent, separators))
        return "custom:" + json.dumps(obj)

    def decode(self, text):
        self.calls.append(("loads",))
        assert text.startswith("custom:"), text
        return json.loads(text[7:])


class C19(Check):
    id = "C19"
    technique = "exhaustive enumeration of values and graphs over all pairs of backends and over indent and separators"
    rule = "every value and graph of the bounded size with every backend; a state is a distinct encoded text"

    @property
    def bounds(self):
        return {"backends": 4, "pairs": 10, "all kinds, objects": 2, "ten kinds, objects": 3 if self.thorough else "3 in chains",
                "values": "every value in every context, all pairs of values"}

    def setup(self):
        self.managers = {n: only(n) for n in JSONS + ("yaml",)}
        self.spy = Spy("mc_spy")
        self.poison = Spy("mc_poison", fails=True)

    def cases(self):
        for i in range(len(OPTS)):
            for c in rt.CONTEXTS:
                for n in GROUPED:
                    yield ("ctx", i, c, n)
        for i in (0, 1):
            for d in DICTS:
                for k in K:
                    yield ("key", i, d, k)
            for a, b in itertools.permutations(CORE_KEYS, 2):
                yield ("keys", i, a, b)
        for t in graphs.terms(list(graphs.KINDS), 2, (0,), rt.arities(2)):
            yield ("g", 0, t)
        for t in graphs.terms(TEN, 2, (0, 1), rt.arities(2)):
            yield ("g", 1, t)
        for t in graphs.terms(TEN, 3, (), rt.arities(2 if self.thorough else 1)):
            yield ("g", 0, t)
        for base in range(0, 0x11000, 0x100):
            yield ("chars", base)
        for n in range(-330, 331):
            yield ("num", n)
        for a in GROUPED:
            yield ("pair", 0, a)
        for i in range(len(OPTS)):
            for k in K:
                yield ("used", i, k)
        for n, ind, sep in itertools.product(JSONS + ("yaml", "spy"), INDENTS, SEPARATORS):
            yield ("format", n, ind, sep)

    def value(self, case):
        kind = case[0]
        if kind == "ctx":
            return rt.CONTEXTS[case[2]](V[case[3]])
        if kind == "key":
            if case[1] == 0 and case[2] != "dict" and K[case[3]]() == "__dict__":
                raise Skip  # taken for the attributes
            k = K[case[3]]()
            s = [1]
            return [DICTS[case[2]]({"z": 1, k: [s], "a": s}), s, k]
        if kind == "keys":
            a, b = K[case[2]](), K[case[3]]()
            return {"x": {a: b, b: a, "s": a}, "a": [a, b]}
        if not graphs.closable(case[2]):
            raise Skip
        x = graphs.build(case[2], [7, "s"])
        s = [1]
        return {"z": x, "b": s, "a": [s, x]}

    def run_case(self, case):
        kind = case[0]
        if kind == "chars":
            return self.chars(case[1])
        if kind == "num":
            return self.num(case[1])
        if kind == "pair":
            for b in GROUPED:
                x, y = V[case[2]](), V[b]()
                self.all_pairs({"b": x, "a": [y, x], "c": (y,)}, OPTS[0], yaml=self.thorough)
            return None
        if kind == "used":
            return self.used(OPTS[case[1]], K[case[2]])
        if kind == "format":
            return self.format(*case[1:])
        return self.all_pairs(self.value(case), OPTS[case[1]])

    def all_pairs(self, x, opts, yaml=True):
        dec = rt.dec_opts(opts)
        texts = {n: jsonpickle.encode(x, backend=self.managers[n], **opts) for n in JSONS + (("yaml",) if yaml else ())}
        self.step(len(texts))
        ref = snap(jsonpickle.decode(texts["json"], backend=self.managers["json"], **dec), identity=True)
        plain = snap(jsonpickle.decode(texts["json"], **dec), identity=True)
        self.state(texts["json"])
        if plain != ref:
            raise Violation(f"default and json backend: {first_difference(plain, ref)}\n  {texts['json'][:400]}")
        for a, b in [*itertools.product(JSONS, repeat=2)] + ([("yaml", "yaml")] if yaml else []):
            got = snap(jsonpickle.decode(texts[a], backend=self.managers[b], **dec), identity=True)
            self.step()
            if got != ref:
                raise Violation(f"{a} to {b}: {first_difference(ref, got)}\n  options {opts}\n  text {texts[a][:400]}")

    def chars(self, base):
        s = [chr(c) for c in range(base, base + 0x100) if not 0xD800 <= c < 0xE000]
        if not s:
            raise Skip
        self.all_pairs([s, {c: 1 for c in s}, "".join(s)], {})
        self.all_pairs([c + "a" for c in s] + ["a" + c for c in s], {})

    def num(self, n):
        f = 10.0 ** n if -323 <= n <= 308 else 0.1 * n
        vals = [n, f, -f, f / 3, n / 7, (1 + 2**-52) * f, 2 ** abs(n) if abs(n) < 64 else n, -(2 ** abs(n)) if abs(n) < 64 else n]
        self.all_pairs(vals + [{"v": v} for v in vals], {})
        self.all_pairs({v: v for v in vals}, {"keys": True})

    def used(self, opts, key):
        """Only the backend that is passed is called, for keys as well."""
        x = {"a": {key(): [(1, {key(): 2})]}}
        dec = rt.dec_opts(opts)
        default = sys.modules["mc_poison"]
        want = jsonpickle.encode(x, **opts)
        value = snap(jsonpickle.decode(want, **dec))
        try:
            for n in JSONS:
                jsonpickle.remove_backend(n)
            assert default and jsonpickle.load_backend("mc_poison")
            spy, custom = self.spy, Custom()
            spy.calls.clear()
            text = jsonpickle.encode(x, backend=spy.manager, **opts)
            self.step(8)
            if text != want or not spy.calls:
                raise Violation(f"written {text[:300]} instead of {want[:300]}")
            encodes = len(spy.calls)
            back = jsonpickle.decode(text, backend=spy.manager, **dec)
            if snap(back) != value or len(spy.calls) == encodes:
                raise Violation(f"read {back!r}")
            if any(kw for _, kw in spy.calls):
                raise Violation(f"options nobody set: {spy.calls}")
            text = jsonpickle.encode(x, backend=custom, **opts)
            if len(custom.calls) != encodes:
                raise Violation(f"{len(custom.calls)} calls of a custom backend, {encodes} of a manager")
            if snap(jsonpickle.decode(text, backend=custom, **dec)) != value:
                raise Violation(f"a custom backend reads {text}")
            flat = Pickler(backend=spy.manager, **opts).flatten(x)
            if json.dumps(flat) != want:
                raise Violation(f"Pickler gives {flat}")
            if snap(Unpickler(backend=spy.manager, **dec).restore(flat)) != value:
                raise Violation("Unpickler differs")
            try:
                jsonpickle.encode(x, **opts)
            except RuntimeError:
                pass
            else:
                raise Violation("the default backend was not used")
        finally:
            jsonpickle.remove_backend("mc_poison")
            for n in JSONS:
                jsonpickle.load_backend(n)

    def format(self, name, indent, separators):
        x = {"z": [1, (2, [])], "a": {"b": {}, 1: [None]}, "c": rt.CONTEXTS["shared"](lambda: {"k": [5]})}
        given = {k: v for k, v in (("indent", indent), ("separators", separators)) if v is not None}
        if name == "spy":
            self.spy.calls.clear()
            text = jsonpickle.encode(x, backend=self.spy.manager, indent=indent, separators=separators)
            if self.spy.calls != [("dumps", given)]:
                raise Violation(f"{given} reaches the backend as {self.spy.calls}")
            custom = Custom()
            jsonpickle.encode(x, backend=custom, indent=indent, separators=separators)
            if custom.calls != [("dumps", indent, separators)]:
                raise Violation(f"{given} reaches the backend as {custom.calls}")
            self.spy.calls.clear()
            self.spy.manager.set_encoder_options("mc_spy", sort_keys=False, indent=3)
            jsonpickle.encode(x, backend=self.spy.manager, indent=indent, separators=separators)
            self.spy.manager.set_encoder_options("mc_spy")
            if self.spy.calls != [("dumps", {"sort_keys": False, "indent": 3, **given})]:
                raise Violation(f"{given} with options reaches the backend as {self.spy.calls}")
            self.step(3)
            if text != json.dumps(json.loads(text), **given):
                raise Violation(f"{given} gives {text}")
            return
        if name == "yaml" and (separators or indent in (0, 1)):
            raise Skip
        m = self.managers[name]
        plain = jsonpickle.encode(x, backend=m)
        text = jsonpickle.encode(x, backend=m, indent=indent, separators=separators)
        self.step(4)
        self.state((name, text))
        if name in ("json", "simplejson") and text != json.dumps(json.loads(text), **given):
            raise Violation(f"{given} gives {text}")
        a, b = jsonpickle.decode(plain, backend=m), jsonpickle.decode(text, backend=m)
        if snap(a, identity=True) != snap(b, identity=True):
            raise Violation(f"{given} alters the value: {text}")


CHECK = C19
