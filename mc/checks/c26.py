"""C26: without keys=True non-string keys become fixed strings."""

import collections
import functools
import itertools
import json

import jsonpickle
from jsonpickle import Pickler

from .. import zoo
from ..core import Check, Skip, Violation
from ..snap import first_difference, snap
from .c05 import TAGS, K

RESERVED = {"py/" + t for t in TAGS if t != "other"}


class BadRepr:
    def __repr__(self):
        raise ValueError

    def __str__(self):
        return "as str"


class Repr:
    def __init__(self, r):
        self.r = r

    def __repr__(self):
        return self.r


class IntSub(int):
    def __repr__(self):
        return "IntSub!"


class FloatSub(float):
    pass


class StrKey(str):
    def __repr__(self):
        return "StrKey!"

    __str__ = __repr__


K = {
    **K,
    "bad_repr": BadRepr,
    "repr_a": lambda: Repr("a"),
    "repr_tag": lambda: Repr("py/idx"),
    "repr_id": lambda: Repr("py/id"),
    "repr_object": lambda: Repr("py/object"),
    "strkey": lambda: StrKey("sk"),
    "strkey_tag": lambda: StrKey("py/tuple"),
    "strkey": lambda: StrKey("sk"),
    "strkey_tag": lambda: StrKey("py/tuple"),
    "repr_long": lambda: Repr("x" * 500),
    "repr_nl": lambda: Repr('"\n\\é😀'.encode("utf-16", "surrogatepass").decode("utf-16")),
    "repr_empty": lambda: Repr(""),
    "repr_null": lambda: Repr("null"),
    "intsub": lambda: IntSub(3),
    "floatsub": lambda: FloatSub(1.5),
    **{"name_" + n: (lambda n=n: n) for n in ("keys", "items", "append", "__doc__", "__len__", "__init__", "data", "a", "d", "self", "args", "fromkeys")},
    "big": lambda: 10**40,
    "nested": lambda: ((None, (True, (1.0,))), frozenset([b"x"])),
}
SPECIAL = ("str_12", "s_dunder")  # "__dict__" is special in derived dictionaries
CORE = ["bad_repr", "repr_null", "repr_a", "repr_empty", "intsub", "floatsub", "tag_id", "tag_object", "tag_other", "str_0", "str_11", "str_14", "str_16", "tup_0", "tup_2", "fs_0", "big"]
for _n, _f in {"k_none": lambda: None, "k_true": lambda: True, "k_1": lambda: 1, "k_s1": lambda: "1", "k_f": lambda: 2.5, "k_sf": lambda: "2.5", "k_snull": lambda: "null",
               "k_a": lambda: "a", "k_qa": lambda: "'a'", "k_b": lambda: b"a", "k_sb": lambda: "b'a'", "k_nan": lambda: float("nan"), "k_neg": lambda: -0.0}.items():
    K[_n] = _f
    CORE.append(_n)

NAMES = [n for n in K if n not in SPECIAL]

DICTS = {
    "dict": dict,
    "ordered": collections.OrderedDict,
    "default": lambda: collections.defaultdict(list),
    "nofactory": collections.defaultdict,
    "sub": zoo.DictSub,
    "counter": collections.Counter,
    "user": collections.UserDict,
    "init": lambda: zoo.DictInit.__new__(zoo.DictInit),
}
OPTIONS = [{}, {"unpicklable": False}, {"make_refs": False}, {"numeric_keys": True}, {"numeric_keys": True, "unpicklable": False}, {"use_base85": True},
           {"max_depth": 20}, {"fail_safe": repr, "warn": True}, {"handle_readonly": True}]
PLACES = ["root", "list", "attr", "dict", "tuple", "state", "deep"]


def rendered(key, numeric=False):
    """The documented conversion of one key."""
    if isinstance(key, str):
        return key
    if key is None:
        return "null"
    if numeric and isinstance(key, (int, float)):
        return key
    try:
        return repr(key)
    except ValueError:
        return str(key)


def module_function():
    pass


class C26(Check):
    id = "C26"
    technique = "exhaustive enumeration of key combinations, dictionary kinds, places and options against the documented conversion"
    rule = "every combination within the bound; a state is a distinct encoded text"

    @property
    def bounds(self):
        return {"keys": len(K), "keys per dictionary": 3, "dictionary kinds": len(DICTS), "places": len(PLACES), "option sets": len(OPTIONS)}

    def cases(self):
        for n, d, p, o in itertools.product(K, DICTS, PLACES, range(len(OPTIONS))):
            if n in SPECIAL and d not in ("dict", "user"):
                continue
            yield ("keys", (n,), d, p, o)
        for pair in itertools.product(NAMES, repeat=2):
            if pair[0] != pair[1]:
                for d in ("dict", "sub"):
                    for o in (0, 1, 3):
                        yield ("keys", pair, d, "root", o)
        for pair in itertools.permutations(CORE, 2):
            for d in DICTS:
                for o in range(len(OPTIONS) if self.thorough else 5):
                    yield ("keys", pair, d, "list", o)
        for trip in itertools.permutations(CORE, 3):
            for d in DICTS:
                for o in (0, 1, 3):
                    yield ("keys", trip, d, "root", o)
        for d, p, v in itertools.product(DICTS, PLACES, range(12)):
            for o in range(len(OPTIONS)):
                yield ("values", d, p, v, o)

    def run_case(self, case):
        getattr(self, "run_" + case[0])(*case[1:])

    def place(self, p, d, s):
        if p == "root":
            return d
        if p == "list":
            return [d, s, d]
        if p == "dict":
            return {"d": d, "s": s}
        if p == "tuple":
            return ((d, 1), s)
        if p == "deep":
            return [[{"x": [d]}], s]
        o = zoo.Plain() if p == "attr" else zoo.GetOnly()
        o.a, o.b = d, s
        return o

    def find(self, p, back):
        if p == "root":
            return back
        if p in ("list", "tuple"):
            return back[0] if p == "list" else back[0][0]
        if p == "dict":
            return back["d"]
        if p == "deep":
            return back[0][0]["x"][0]
        return back.a if not isinstance(back, dict) else back["a"]

    def run_keys(self, names, dkind, p, o):
        opts = OPTIONS[o]
        keys = [K[n]() for n in names]
        s = [8]
        d = DICTS[dkind]()
        for i, k in enumerate(keys):
            d[k] = [i, s]
        self.compare(d, dkind, p, s, opts, keys)

    def expected(self, d, opts, keep=lambda v: True):
        out = {}
        for k, v in d.items():
            name = rendered(k, opts.get("numeric_keys"))
            if name in RESERVED or not keep(v):
                continue
            out[name] = v
        return out

    def compare(self, d, dkind, p, s, opts, keys, keep=lambda v: True):
        if dkind == "ordered" and opts.get("unpicklable", True):
            raise Skip  # written as pairs, so the keys are values
        value = self.place(p, d, s)
        want = self.expected(d, opts, keep)
        flat = Pickler(**opts).flatten(value)
        self.step()
        inner = flat
        where = f"options {opts}, {dkind} in {p}"
        if opts.get("numeric_keys"):
            # as the JSON encoder writes them
            written = [json.loads(json.dumps({k: 0})).popitem()[0] for k in want]
            if len(set(written)) < len(written):
                raise Skip  # the text has the same name twice
            want = {json.loads(json.dumps({k: 0})).popitem()[0]: v for k, v in want.items()}
        text = jsonpickle.encode(value, **opts)
        self.step()
        self.state(text)
        where += f": {text[:400]}"
        if opts.get("unpicklable") is False:
            got = self.find(p, self.untag(json.loads(text)))
            if dkind == "user":
                got = got["data"]
            if dkind == "default":
                # the factory counts as an attribute
                got.pop("py/default_factory" if "default_factory" in want else "default_factory", None)
            if list(got) != list(want):
                raise Violation(f"keys {list(got)} instead of {list(want)}, {where}")
            bad = [k for k in want if keep is None and got[k] != want[k]]
            if keys and any(got[k] != want[k] for k in want) or bad:
                raise Violation(f"items {got} instead of {want}, {where}")
            return
        if opts.get("numeric_keys") and keys:
            self.numeric(inner, d, where)
        back = self.find(p, jsonpickle.decode(text))
        self.step()
        if type(back) is not type(d):
            raise Violation(f"decoded {type(back)}, {where}")
        if dkind == "user":
            back = back.data
        if list(back) != list(want):
            raise Violation(f"keys {list(back)} instead of {list(want)}, {where}")
        if any(type(k) is not str for k in back):
            raise Violation(f"keys {list(back)} are not all strings, {where}")
        a, b = snap(list(want.values()), identity=opts.get("make_refs", True)), snap(list(back.values()), identity=opts.get("make_refs", True))
        if a != b:
            raise Violation(f"{first_difference(a, b)}, {where}")
        if dkind in ("default", "nofactory") and back.default_factory is not (list if dkind == "default" else None):
            raise Violation(f"factory {back.default_factory}, {where}")

    def untag(self, doc):
        """Tuples and references do not matter here."""
        return doc

    def numeric(self, flat, d, where):
        """Numbers reach the backend as they are."""
        keys = []

        def walk(x):
            if isinstance(x, dict):
                keys.extend(x)
                for v in x.values():
                    walk(v)
            elif isinstance(x, (list, tuple)):
                for v in x:
                    walk(v)

        walk(flat)
        for k in d:
            if isinstance(k, (int, float)) and not any(type(k) is type(g) and (k == g or k != k) for g in keys):
                if any(k == g and type(g) in (int, float, bool) for g in keys):
                    continue  # the same key for Python
                raise Violation(f"the key {k!r} became one of {keys}, {where}")

    def run_values(self, dkind, p, v, o):
        """Entries whose value cannot be stored are left out."""
        opts = OPTIONS[o]
        s = [8]
        plain = zoo.Plain()
        plain.x = 1
        special = [
            (lambda: 0, False),
            (plain.__eq__, None),
            (zoo.GetSet().__getstate__, False),
            (zoo.Outer.__init__, None),
            ([].append, None),
            (functools.partial(int, "5"), None),
            (module_function, True),
            (len, True),
            (zoo.Plain, True),
            (None, True),
            (json, True),
            (s, True),
        ]
        value, kept = special[v]
        if kept is None or (dkind == "counter" and not kept):
            raise Skip
        d = DICTS[dkind]()
        d["a"] = [1, s]
        d["x"] = value
        d[5] = value
        d["z"] = [2, s]
        self.compare(d, dkind, p, s, opts, [], keep=(lambda w: w is not value) if not kept else (lambda w: True))


CHECK = C26
