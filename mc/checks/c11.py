"""C11: Pickler and Unpickler objects can be reused."""

import copy
import itertools
import json
import re

import jsonpickle
from jsonpickle.errors import ClassNotFoundError
from jsonpickle.pickler import Pickler
from jsonpickle.unpickler import Unpickler

from .. import graphs, model, rt, zoo
from ..core import Check, Violation
from ..snap import snap
from ..values import GROUPS, V


class Boom(Exception):
    pass


class BadState:
    """Fails on encode when bad, on decode always."""

    def __init__(self, bad=True):
        self.bad = bad

    def __getstate__(self):
        if self.bad:
            raise Boom("getstate")
        return {"s": [1]}

    def __setstate__(self, state):
        raise Boom("setstate")


class Nested:
    """Its state is made with a separate encode call."""

    def __init__(self, v=None):
        self.v = v

    def __getstate__(self):
        return {"text": jsonpickle.encode([self.v, self.v])}

    def __setstate__(self, state):
        self.v = jsonpickle.decode(state["text"])[1]


class Local:
    pass


LOCAL = type("Missing", (), {"__module__": "nowhere"})
OTHER = type("Other", (), {"__module__": "nowhere"})


def plain(**kw):
    p = zoo.Plain()
    vars(p).update(kw)
    return p


def shared():
    s = [1]
    return [s, {"k": s}, s]


def cyclic():
    p = plain()
    p.me, p.l = p, [p]
    return p


def deep():
    return {"a": [plain(b=(1, [plain(c={"d": [2]})]))]}


def after_failure(bad):
    s = [1]
    return [s, plain(x=s), {"k": s, "b": bad()}, s]


def keyed():
    k = zoo.Tagged("t")
    return {k: [k, (1, 2)], (1, 2): k, "s": k}


VALUES = {
    "int": lambda: 5,
    "bytes": lambda: [b"x", b"x"],
    "shared": shared,
    "cyclic": cyclic,
    "deep": deep,
    "keyed": keyed,
    "handled": lambda: zoo_handled([1]),
    "nested": lambda: [Nested([1]), plain(a=Nested(2))],
    "reduced": lambda: zoo.rebuild([1], {"a": zoo.rebuild(1, 2)}),
    "iter": lambda: [zoo.CountingIter([1, [2]]), [3]],
    "ddict": V["ddict_nest"],
    "bad": lambda: after_failure(BadState),
    "bad_root": BadState,
    "bad_key": lambda: {"a": [1], BadKey(): [2]},
}


class BadKey:
    def __repr__(self):
        raise Boom("repr")

    __str__ = __repr__

    def __getstate__(self):
        raise Boom("getstate")


def zoo_handled(s):
    o = zoo.Handled()
    o.a, o.b = s, [s]
    return [o, s, o]


def missing(name):
    return {"py/object": f"nowhere.{name}", "a": [1]}


TEXTS = {
    "int": "5",
    "shared": '[[1], {"py/id": 1}, {"a": {"py/id": 1}}]',
    "cyclic": '{"py/object": "mc.zoo.Plain", "me": {"py/id": 0}, "l": [{"py/id": 0}]}',
    "handled": '[{"py/object": "mc.zoo.Handled", "parts": [[1], {"py/id": 2}]}, {"py/id": 1}]',
    "proxy": '{"py/object": "mc.zoo.GetSet", "py/state": {"packed": [{"py/id": 0}, {"a": {"py/id": 0}}]}}',
    "forward": '[{"py/id": 2}, [1], [2]]',
    "keyed": '{"json://{\\"py/tuple\\": [1, 2]}": [1], "b": {"py/id": 1}}',
    "names": '{"a": {"b": [{"py/object": "mc.zoo.Plain", "c": {"py/object": "mc.zoo.Slots", "a": 1}}]}}',
    "reduce": '{"py/reduce": [{"py/function": "mc.zoo.rebuild"}, {"py/tuple": [[1], {"py/id": 1}]}]}',
    "ref": '[{"py/tuple": [[7], {"py/id": 1}]}, {"py/set": [1]}, {"py/b64": "eA=="}]',
    "fail": '[[1], {"x": {"py/object": "mc.checks.c11.BadState", "py/state": {"s": [1]}}}, {"py/id": 1}]',
    "fail_key": '{"json://{\\"py/object\\": \\"mc.checks.c11.BadState\\", \\"py/state\\": 1}": 1}',
    "syntax": "[1, {",
}
CLASSY = {
    "known": ('[{"py/object": "nowhere.Missing", "a": [1]}, {"py/object": "nowhere.Missing"}]', LOCAL),
    "map": ('[{"py/object": "nowhere.Missing", "a": [1]}]', {"nowhere.Missing": OTHER}),
    "list": ('[{"py/object": "nowhere.Missing", "a": [1]}]', [OTHER, LOCAL]),
    "replace": ('{"py/object": "mc.zoo.Plain", "a": 1}', {"mc.zoo.Plain": Local}),
    "short": ('{"py/type": "nowhere.Missing"}', {"Missing": LOCAL}),
}

PICK = [("flatten", n) for n in VALUES] + [("encode", n) for n in ("shared", "keyed", "cyclic", "bad")]
UNPICK = (
    [("restore", n) for n in TEXTS if n != "syntax"]
    + [("decode", n) for n in ("shared", "cyclic", "keyed", "syntax", "fail")]
    + [("classes", n) for n in CLASSY]
    + [("without", n) for n in CLASSY]
)
POPTS = ({}, {"unpicklable": False}, {"make_refs": False}, {"keys": True}, {"max_depth": 2}, {"fail_safe": repr},
         {"max_iter": 1}, {"make_refs": False, "keys": True}, {"unpicklable": False, "keys": True})
UOPTS = ({}, {"keys": True}, {"v1_decode": True}, {"on_missing": "error"}, {"keys": True, "on_missing": "warn"})


def outcome(fn):
    try:
        return ("value", fn())
    except RecursionError:
        raise
    except (Exception, ClassNotFoundError) as e:  # noqa: BLE001
        return ("raised", type(e).__name__, ADDRESS.sub("", str(e)))


ADDRESS = re.compile("0x[0-9a-f]+")


def do_pick(p, op, opts):
    what, name = op
    x = VALUES[name]()
    if what == "flatten":
        return outcome(lambda: ADDRESS.sub("", json.dumps(p.flatten(x))))
    return outcome(lambda: ADDRESS.sub("", jsonpickle.encode(x, context=p, **opts)))


def do_unpick(u, op, opts):
    what, name = op
    if what in ("classes", "without"):
        text, classes = CLASSY[name]
        if what == "without":
            classes = None
        return outcome(lambda: snap(u.restore(json.loads(text), classes=classes)))
    text = TEXTS[name]
    if what == "restore":
        data = json.loads(text)
        return outcome(lambda: snap(u.restore(data)))
    return outcome(lambda: snap(jsonpickle.decode(text, context=u, **opts)))


class C11(Check):
    id = "C11"
    technique = "exhaustive enumeration of operation sequences on one Pickler or Unpickler against fresh objects; graphs restored twice"
    rule = "every sequence of the bounded length over the operations, failing ones included; a state is the sequence of results"

    @property
    def bounds(self):
        return {"pickler sequence": 4 if self.thorough else 3, "unpickler sequence": 3, "pickler options": len(POPTS),
                "unpickler options": len(UOPTS), "twice restored graphs": "2 objects of all kinds"}

    def setup(self):
        self.fresh = {}

    def cases(self):
        for o in range(len(POPTS)):
            for seq in itertools.product(range(len(PICK)), repeat=3):
                yield ("p", o, seq)
        for o in range(len(UOPTS)):
            for seq in itertools.product(range(len(UNPICK)), repeat=3):
                yield ("u", o, seq)
        for o in range(2):
            for seq in itertools.product(range(len(PICK)), range(len(UNPICK)), repeat=2):
                yield ("both", o, seq)
        names = [n for g, ns in GROUPS.items() if g not in ("opaque", "null_stored") for n in ns]
        for c in rt.CONTEXTS:
            for n in names:
                yield ("twice", "ctx", c, n)
        for t in graphs.terms(list(graphs.KINDS), 2, (0,), rt.arities(2)):
            yield ("twice", "g", t)
        for t in graphs.terms(["list", "dict", "plain", "reduced", "dict_sub", "handled", "getset"], 3, (), rt.arities(2)):
            yield ("twice", "g", t)
        if self.thorough:
            for o in (0, 1):
                for seq in itertools.product(range(len(PICK)), repeat=4):
                    yield ("p", o, seq)

    def expected(self, kind, o, i):
        k = (kind, o, i)
        if k not in self.fresh:
            if kind == "p":
                self.fresh[k] = do_pick(Pickler(**POPTS[o]), PICK[i], POPTS[o])
            else:
                self.fresh[k] = do_unpick(Unpickler(**UOPTS[o]), UNPICK[i], UOPTS[o])
            self.step()
        return self.fresh[k]

    def one(self, kind, o, i, obj, case):
        want = self.expected(kind, o, i)
        if kind == "p":
            got = do_pick(obj, PICK[i], POPTS[o])
        else:
            got = do_unpick(obj, UNPICK[i], UOPTS[o])
        self.step()
        if got != want:
            ops = [(PICK if kind == "p" else UNPICK)[i] for i in case[2]] if case[0] == kind else case
            raise Violation(f"history {ops}\n  a fresh object gives {str(want)[:400]}\n  the reused one     {str(got)[:400]}")
        return want

    def run_case(self, case):
        if case[0] == "twice":
            return self.twice(case)
        kind, o, seq = case
        p, u = Pickler(**POPTS[o]), Unpickler(**UOPTS[o % len(UOPTS)])
        results = []
        for n, i in enumerate(seq):
            k = kind if kind != "both" else "pu"[n % 2]
            results.append(self.one(k, o, i, p if k == "p" else u, case))
        self.state((kind, o, results))

    def twice(self, case):
        if case[1] == "ctx":
            x = rt.CONTEXTS[case[2]](V[case[3]])
        else:
            if not graphs.closable(case[2]):
                return
            x = graphs.build(case[2], [7])
            s = [1]
            x = [x, s, {"k": x}, s]
        p = Pickler()
        data = p.flatten(x)
        kept = copy.deepcopy(data)
        again = p.flatten(x)
        if not same(data, again):
            raise Violation(f"flattened as {data}\n  by the reused object as {again}")
        u = Unpickler()
        a = u.restore(data)
        if not same(data, kept):
            raise Violation(f"restoring changed the data from {kept}\n  to {data}")
        sa = snap(a)
        b = u.restore(data)
        self.step(4)
        self.state(json.dumps(data))
        if snap(b) != sa:
            raise Violation(f"the second restore of {kept} gives {snap(b)}, the first {sa}")
        if snap(a) != sa:
            raise Violation(f"the second restore changed the result of the first: {kept}")
        common = mutable(a) & mutable(b)
        if common or mutable(data) & mutable(b):
            raise Violation(f"two restored objects share parts with each other or with the data: {kept}")


def same(a, b):
    return model.same(nodes(a), nodes(b))


def nodes(x):
    if isinstance(x, dict):
        return model.Pairs([(k, nodes(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return [nodes(v) for v in x]
    return x


def mutable(x):
    """Identities of the lists, dictionaries and instances that make up x."""
    from ..snap import Snapper

    s = Snapper()
    s.go(x)
    return {i for i, o in zip(s.memo, s.keep) if not isinstance(o, (str, int, float, tuple, bytes, range, slice)) and not immutable(o)}


def immutable(o):
    return type(o).__module__ in ("datetime", "re", "decimal", "fractions", "uuid", "operator", "builtins", "ipaddress") and not isinstance(
        o, (list, dict, set, bytearray, BaseException))


CHECK = C11
