"""C15: malformed tag payloads decode to harmless defaults."""

import base64
import binascii
import itertools
import json

import jsonpickle

from .. import zoo
from ..core import Check, Violation
from ..snap import first_difference, snap

SCALARS = [None, True, False, 0, 1, -1, 7, 1.5, -0.0, 1e300, 10**30]
TREES = [[], [1], [[]], [[1], {"a": 1}], {}, {"a": 1}, {"a": [1]}, [None], {"py/tuple": [1]}, {"py/b64": "QQ=="}, [{}]]
TEXTS = ["", "a", "abc", "a.b", "é", "\ud800", "日本", "\x00"]
ALPHABET = ["A", "Q", "=", "!", "é", " ", "~", "-"]
NAMES = ["", "nodots", "no.such", "no.such.name", "mc.zoo.Nothing", "mc.zoo.Plain.nothing", "mc.nothing.Plain", "mc.zoo", "..", ".a",
         "a.", "a..b", "é.ü", "a b.c", "1.2", "py/object", "a\x00b.c", "x" * 300 + ".y", "builtins.nothing", "__builtin__.nothing",
         "__main__.Nothing", "mc..zoo.Plain", "collections.Nothing"]
ANY = object()  # only has to decode without an error


class Iter:
    """An iterator is compared by what it yields."""

    def __init__(self, items):
        self.items = items


def b64(text):
    try:
        data = text.encode()
        return base64.b64decode(data, validate=True)
    except UnicodeEncodeError:
        return b""
    except binascii.Error:
        try:
            return ANY if base64.b64decode(data) else b""
        except binascii.Error:
            return b""


def b85(text):
    try:
        return base64.b85decode(text.encode())
    except (UnicodeEncodeError, ValueError):
        return b""


def strings(n):
    for k in range(n + 1):
        for t in itertools.product(ALPHABET, repeat=k):
            yield "".join(t)


def bad_nodes():
    """(node, value it has to decode to)"""
    for s in SCALARS:
        yield {"py/tuple": s}, ()
        yield {"py/set": s}, set()
        yield {"py/iterator": s}, Iter([])
    for p in [[[1]], [{}], [1, [2]], [[], []], [{"a": 1}, 2]]:
        yield {"py/set": p}, set()
    for p in SCALARS + TREES:
        yield {"py/b64": p}, b""
        yield {"py/b85": p}, b""
    for p in TEXTS:
        yield {"py/b64": p}, b64(p)
        yield {"py/b85": p}, b85(p)
    for p in ["!", "Q", "QQ", "QQQ", "QQ=", "é", "", "QQ==", "~~~~~~~~"]:
        yield {"py/bytea": {"py/b64": p}}, ANY if b64(p) is ANY else bytearray(b64(p))
        yield {"py/bytea": {"py/b85": p}}, bytearray(b85(p))
    for p in [None, True, False, -1, -2, -3, -(10**30), 1.5, 0.0, 1.0, "", "a", "0", [], [0], {}, {"a": 1}, 99, 10**30, [None], {"py/id": 0}]:
        yield {"py/id": p}, None
    callables = []
    for p in SCALARS + TEXTS:
        yield {"py/reduce": p}, []
    for head in [None, 5, "x", [], {}, {"py/function": "no.such"}, {"py/type": "no.such"}, {"py/b64": "QQ=="}, {"py/tuple": []}]:
        for rest in [[], [None], [{"py/tuple": []}], [{"py/tuple": [1]}, {"a": 1}], [[], None, [1], [2]]]:
            callables.append([head, *rest])
    for p in callables:
        yield {"py/reduce": p}, []
    for n in NAMES:
        yield {"py/object": n}, {"py/object": n} if n != "mc.zoo" else ANY
        yield {"py/object": n, "a": [1], "b": {"c": 2}}, {"py/object": n, "a": [1], "b": {"c": 2}} if n != "mc.zoo" else ANY
        yield {"py/object": n, "py/state": {"a": 1}}, {"py/object": n, "py/state": {"a": 1}} if n != "mc.zoo" else ANY
        if n != "mc.zoo":
            yield {"py/type": n}, {"py/type": n}
            yield {"py/function": n}, None
        yield {"py/mod": n.replace("/", "") + "/" + n.replace("/", "")}, None if n not in ("mc.zoo", "", "nodots", "..", ".a") else ANY
        yield {"py/repr": "nodots_/" + n.replace("/", "")}, None


NODES = [(n, v) for n, v in bad_nodes() if not ("py/mod" in n and n["py/mod"].startswith(("/", ".", "mc.zoo/", "a./", "a../", "a\x00", "mc../")))]


DANGLING = [{"py/id": 99}, {"py/id": 10**30}]


def plain(**kw):
    p = zoo.Plain()
    vars(p).update(kw)
    return p


def getset(a, b):
    o = zoo.GetSet()
    o.a, o.b = a, b
    return o


def dictsub(item, attr):
    d = zoo.DictSub()
    d["k"], d.z = item, attr
    return d


def handled(a, b):
    o = zoo.Handled()
    o.a, o.b = a, b
    return o


def newargs(a, b):
    return zoo.NewArgs(a, b)


# position: (document around a node, value around its value)
POSITIONS = {
    "list": (lambda r: [[1], {"py/id": 1}, r, "x", {"py/tuple": [2]}], lambda v: shared(lambda s: [s, s, v, "x", (2,)])),
    "dict": (lambda r: {"a": [1], "b": {"py/id": 1}, "r": r, "c": {"d": 5}}, lambda v: shared(lambda s: {"a": s, "b": s, "r": v, "c": {"d": 5}})),
    "attr": (lambda r: {"py/object": "mc.zoo.Plain", "a": 1, "r": r, "b": {"py/set": [3]}}, lambda v: plain(a=1, r=v, b={3})),
    "tuple": (lambda r: {"py/tuple": ["a", r, "b"]}, lambda v: ("a", v, "b")),
    "state": (lambda r: {"py/object": "mc.zoo.GetSet", "py/state": {"packed": [r, "x"]}}, lambda v: getset(v, "x")),
    "seq": (lambda r: {"py/object": "mc.zoo.ListSub", "py/seq": [1, r, 2]}, lambda v: zoo.ListSub([1, v, 2])),
    "item": (lambda r: {"py/object": "mc.zoo.DictSub", "k": r, "__dict__": {"z": 1}}, lambda v: dictsub(v, 1)),
    "dattr": (lambda r: {"py/object": "mc.zoo.DictSub", "k": 1, "__dict__": {"z": r}}, lambda v: dictsub(1, v)),
    "args": (lambda r: {"py/reduce": [{"py/function": "mc.zoo.rebuild"}, {"py/tuple": [r, 5]}]}, lambda v: zoo.rebuild(v, 5)),
    "newargs": (lambda r: {"py/object": "mc.zoo.NewArgs", "py/newargs": {"py/tuple": [5, r]}}, lambda v: newargs(5, v)),
    "handled": (lambda r: {"py/object": "mc.zoo.Handled", "parts": [r, 5]}, lambda v: handled(v, 5)),
    "root": (lambda r: r, lambda v: v),
}


def shared(f):
    return f([1])


def copy(v):
    if isinstance(v, Iter):
        return iter(list(v.items))
    if isinstance(v, (list, dict, set, bytearray)):
        return json.loads(json.dumps(v)) if isinstance(v, (list, dict)) else type(v)(v)
    return v


class C15(Check):
    id = "C15"
    technique = "exhaustive enumeration of malformed payloads in every position and pair of positions against the documented defaults"
    rule = "every malformed node in every two-level position, next to every other malformed node, and every short text as binary data"

    @property
    def bounds(self):
        return {"malformed nodes": len(NODES), "positions": len(POSITIONS), "nesting": 3 if self.thorough else 2,
                "pairs": "all", "binary texts": 6 if self.thorough else 5}

    def cases(self):
        for i in range(len(NODES)):
            for p, q in itertools.product(POSITIONS, repeat=2):
                for o in range(3):
                    yield ("at", p, q, i, o)
        for i, j in itertools.product(range(len(NODES)), repeat=2):
            yield ("pair", i, j)
        for t in strings(6 if self.thorough else 5):
            yield ("text", t)
        if self.thorough:
            for i in range(len(NODES)):
                for ps in itertools.product(POSITIONS, repeat=3):
                    yield ("deep", ps, i)

    def decode(self, doc, **opts):
        text = json.dumps(doc)
        self.step()
        self.state(text)
        try:
            return text, jsonpickle.decode(text, **opts)
        except Exception as e:  # noqa: BLE001
            raise Violation(f"{e!r} for {text}") from e

    def compare(self, text, got, want, what=""):
        a, b = snap(want), snap(got)
        if a != b:
            raise Violation(f"{what}{first_difference(a, b)} in {got!r} from {text}")

    def run_case(self, case):
        kind = case[0]
        if kind == "text":
            t = case[1]
            for tag, ref in (("py/b64", b64), ("py/b85", b85)):
                text, got = self.decode([1, {tag: t}, [2]])
                want = ref(t)
                if type(got[1]) is not bytes:
                    raise Violation(f"{got!r} from {text}")
                if want is not ANY and got != [1, want, [2]]:
                    raise Violation(f"{got!r} from {text}, expected {want!r}")
            return
        if kind == "pair":
            (a, va), (b, vb) = NODES[case[1]], NODES[case[2]]
            text, got = self.decode([["s"], a, {"py/id": 1}, b, {"k": "v"}])
            if va is ANY or vb is ANY:
                return
            s = ["s"]
            self.compare(text, got, [s, copy(va), s, copy(vb), {"k": "v"}])
            return
        ps = case[1:3] if kind == "at" else case[1]
        node, value = NODES[case[3] if kind == "at" else case[2]]
        doc = node
        for p in reversed(ps):
            doc = POSITIONS[p][0](doc)
        inner = [p for p in ps if p != "root"][-1:]
        if node in DANGLING and not set(inner) & {"list", "dict", "attr", "dattr"}:
            value = ANY  # a placeholder that is filled in later does not fit elsewhere
        opts = ({}, {"keys": True}, {"v1_decode": True})[case[4] if kind == "at" else 0]
        refs_inside = any(p in ("list", "dict") for p in ps[1:])
        if "v1_decode" in opts or (refs_inside and ps[0] != "root"):
            # the references in an inner document have other numbers
            self.decode(doc, **opts)
            return
        text, got = self.decode(doc, **opts)
        if value is ANY:
            return
        want = copy(value)
        for p in reversed(ps):
            want = POSITIONS[p][1](want)
        self.compare(text, got, want)


CHECK = C15
