"""C14: safe decoding never evaluates text from the document."""

import datetime
import importlib
import itertools
import json
import sys

import jsonpickle
from jsonpickle.errors import ClassNotFoundError
from jsonpickle.unpickler import Unpickler

from .. import canary, zoo
from ..core import Check, Violation

AUDIT = {"armed": False, "seen": []}


def audit(event, args):
    if not AUDIT["armed"] or event not in ("compile", "exec"):
        return
    if event == "compile":
        source = args[0]
        if isinstance(source, (str, bytes)) and args[1] in ("<string>", None, "<stdin>"):
            AUDIT["seen"].append(str(source)[:80])


NAMES = {
    "mc.canary/mc.canary": lambda: canary,
    "mc/mc": lambda: sys.modules["mc"],
    "mc/mc.canary": lambda: canary,
    "mc/mc.canary.hit": lambda: canary.hit,
    "mc.canary/mc.canary.hit": lambda: canary.hit,
    "mc.canary/mc.canary.Thing": lambda: canary.Thing,
    "mc.canary/mc.canary.Thing.run": lambda: canary.Thing.run,
    "mc.canary/mc.canary.Thing.value": lambda: canary.Thing.value,
    "mc.canary/mc.canary.table": lambda: canary.table,
    "datetime/datetime.datetime": lambda: datetime.datetime,
    "datetime/datetime.datetime.now": lambda: datetime.datetime.now,
    "os.path/os.path": lambda: importlib.import_module("os.path"),
}
# not a name: None, or an error for a text without the form module/name
TEXTS = [
    "mc.canary/mc.canary.hit()",
    "mc.canary/mc.canary.hit(1)",
    "mc.canary/mc.canary.Thing.run()",
    "mc.canary/mc.canary.Thing[1]",
    "mc.canary/mc.canary.Thing.value[0]",
    "mc.canary/mc.canary.table['k']",
    "mc.canary/[mc.canary.hit() for x in 'a']",
    "mc.canary/(lambda: mc.canary.hit())()",
    "mc.canary/(mc.canary.hit())",
    "mc.canary/ mc.canary.hit()",
    "mc.canary/mc.canary.hit() ",
    "mc.canary/mc.canary.hit ()",
    "mc.canary/mc.canary.hit\n()",
    "mc.canary/f'{mc.canary.hit()}'",
    "mc.canary/mc.canary.hit() or 1",
    "mc.canary/not mc.canary.hit()",
    "mc.canary/1 if mc.canary.hit() else 2",
    "mc.canary/__import__('mc.canary').canary.hit()",
    "mc.canary/getattr(mc.canary, 'hit')()",
    "mc/mc.canary.hit()",
    "mc.canary/mc.nothing",
    "mc.canary/mc.canary.nothing",
    "mc.canary/other.hit",
    "mc.canary/1",
    "mc.canary/1+1",
    "mc.canary/'text'",
    "mc.canary/",
    "mc.canary/.",
    "mc.canary/canary.hit()",
    "nomodule_/nomodule_.hit()",
    "datetime/datetime.datetime.now()",
    "datetime/datetime.date(2000,1,1)",
    "builtins/builtins.len('a')",
    "builtins/len('a')",
    "mc.canary.hit()",
    "__import__('mc.canary').canary.hit()",
    "mc/canary/mc.canary.hit()",
    "mc.canary/mc.canary.hit()/1",
    "",
    "/",
    "1+1",
]
ODD = [None, 5, True, [], ["mc.canary/mc.canary.hit()"], {}, {"py/repr": "mc.canary/mc.canary.hit()"}, 1.5]


def obj(**kw):
    return {"py/object": "mc.zoo.Plain", **kw}


POSITIONS = {
    "root": lambda r: r,
    "list": lambda r: [[1], r, {"py/id": 1}],
    "dict": lambda r: {"a": [1], "r": r, "b": {"py/id": 1}},
    "attr": lambda r: obj(r=r, b=[1]),
    "tuple": lambda r: {"py/tuple": [1, r]},
    "set": lambda r: {"py/set": [1, r]},
    "iterator": lambda r: {"py/object": "mc.zoo.CountingIter", "py/iterator": [r]},
    "state": lambda r: {"py/object": "mc.zoo.GetSet", "py/state": {"packed": [r, r]}},
    "state_root": lambda r: {"py/object": "mc.zoo.Plain", "py/state": r},
    "seq": lambda r: {"py/object": "mc.zoo.ListSub", "py/seq": [r]},
    "items": lambda r: {"py/object": "mc.zoo.DictSub", "k": r, "__dict__": {"z": r}},
    "newargs": lambda r: {"py/object": "mc.zoo.NewArgs", "py/newargs": {"py/tuple": [r, 1]}},
    "newargs_raw": lambda r: {"py/object": "mc.zoo.NewArgs", "py/newargs": [r, 1]},
    "newargsex": lambda r: {"py/object": "mc.zoo.NewArgsEx", "py/newargsex": {"py/tuple": [{"py/tuple": [r]}, {"b": r}]}},
    "initargs": lambda r: {"py/object": "mc.zoo.Plain", "py/initargs": [r]},
    "factory": lambda r: {"py/object": "collections.defaultdict", "default_factory": r, "a": 1},
    "factory2": lambda r: {"py/object": "collections.defaultdict", "py/default_factory": r, "a": 1},
    "reduce_f": lambda r: {"py/reduce": [r, {"py/tuple": []}]},
    "reduce_args": lambda r: {"py/reduce": [{"py/function": "mc.zoo.rebuild"}, {"py/tuple": [r, 1]}]},
    "reduce_state": lambda r: {"py/reduce": [{"py/type": "mc.zoo.Plain"}, {"py/tuple": []}, {"a": r}]},
    "reduce_items": lambda r: {"py/reduce": [{"py/type": "mc.zoo.ListSub"}, {"py/tuple": []}, None, [r]]},
    "reduce_pairs": lambda r: {"py/reduce": [{"py/type": "mc.zoo.DictSub"}, {"py/tuple": []}, None, None,
                                             [{"py/tuple": ["k", r]}]]},
    "reduce_setter": lambda r: {"py/reduce": [{"py/type": "mc.zoo.Plain"}, {"py/tuple": []}, {"a": 1}, None, None, r]},
    "handled": lambda r: {"py/object": "mc.zoo.Handled", "parts": [r, r]},
    "key": lambda r: {"json://" + json.dumps(r): [1]},
    "key_tuple": lambda r: {"json://" + json.dumps({"py/tuple": [1, r]}): [1]},
    "obj_key": lambda r: {"py/object": "mc.zoo.DictSub", "json://" + json.dumps(r): [1]},
    "bytearray": lambda r: {"py/bytea": r},
    "b64": lambda r: {"py/b64": r},
    "type": lambda r: {"py/type": r},
    "object": lambda r: {"py/object": r},
    "id": lambda r: [{"py/id": r}],
    "missing": lambda r: {"py/object": "nowhere.Missing", "a": r},
    "mod": lambda r: {"py/mod": r},
    "ref": lambda r: {"py/ref": r},
}
WITH = {
    "object": {"py/object": "mc.zoo.Plain"},
    "type": {"py/type": "builtins.int"},
    "state": {"py/state": {"a": 1}},
    "tuple": {"py/tuple": []},
    "id": {"py/id": 0},
    "seq": {"py/seq": []},
    "missing": {"py/object": "nowhere.Missing"},
    "handled": {"py/object": "mc.zoo.Handled", "parts": [1, 2]},
    "plain": {"a": 1, "safe": False, "py/safe": False},
    "reduce": {"py/reduce": []},
    "function": {"py/function": "mc.zoo.rebuild"},
}
READ = {
    "root": lambda v: v,
    "list": lambda v: v[1] if v[0] is v[2] and v[0] == [1] else Violation,
    "dict": lambda v: v["r"] if v["a"] is v["b"] else Violation,
    "attr": lambda v: v.r if v.b == [1] and type(v) is zoo.Plain else Violation,
    "tuple": lambda v: v[1] if type(v) is tuple and v[0] == 1 else Violation,
}
ENTRIES = {
    "decode": lambda t: jsonpickle.decode(t),
    "decode_safe": lambda t: jsonpickle.decode(t, safe=True),
    "loads": lambda t: jsonpickle.loads(t),
    "decode_keys": lambda t: jsonpickle.decode(t, keys=True),
    "decode_v1": lambda t: jsonpickle.decode(t, v1_decode=True, keys=True),
    "decode_warn": lambda t: jsonpickle.decode(t, on_missing="ignore", handle_readonly=True, classes=[zoo.Plain]),
    "restore": lambda t: Unpickler().restore(json.loads(t)),
    "restore_safe": lambda t: Unpickler(safe=True, keys=True).restore(json.loads(t)),
    "restore_part": lambda t: Unpickler(keys=True).restore(json.loads(t), reset=False),
    "context": lambda t: jsonpickle.decode(t, context=Unpickler()),
    "context_keys": lambda t: jsonpickle.decode(t, context=Unpickler(keys=True), safe=False, keys=True),
    "after_unsafe": lambda t: after_unsafe(t),
}


def after_unsafe(t):
    try:
        AUDIT["armed"] = False
        jsonpickle.decode('[{"py/repr": "datetime/datetime.datetime.now()"}]', safe=False)
        Unpickler(safe=False).restore([{"py/repr": "datetime/datetime.datetime.now()"}])
    finally:
        AUDIT["armed"] = True
    return jsonpickle.decode(t, keys=True)


class C14(Check):
    id = "C14"
    technique = "exhaustive enumeration of documents with repr tags in every position and every entry point, monitored by an audit hook and canaries"
    rule = "every payload in every position nested in every position, and next to every other tag; a state is a document with an entry point"
    bounds = {"payloads": len(NAMES) + len(TEXTS) + len(ODD), "positions": len(POSITIONS), "nesting": "2, and 3 for the common positions", "entry points": len(ENTRIES)}

    def setup(self):
        sys.addaudithook(audit)
        self.control()

    def control(self):
        """The monitor sees an evaluation when there is one."""
        AUDIT["seen"].clear()
        AUDIT["armed"] = True
        eval("canary.hit()", {"canary": canary})
        AUDIT["armed"] = False
        if not AUDIT["seen"] or not canary.HITS:
            raise RuntimeError("the audit hook does not see evaluations")
        canary.HITS.clear()
        AUDIT["seen"].clear()

    def payloads(self):
        return list(NAMES) + TEXTS + ODD

    def cases(self):
        n = len(self.payloads())
        for p, i, e in itertools.product(POSITIONS, range(n), ENTRIES):
            yield ("one", p, i, e)
        for p, q, i in itertools.product(POSITIONS, POSITIONS, range(n)):
            if q != "root" and p != "root":
                for e in ENTRIES:
                    yield ("two", p, q, i, e)
        few = ("list", "dict", "attr", "tuple", "state", "reduce_args", "handled", "key", "items")
        for p, q, r in itertools.product(POSITIONS if self.thorough else few, few, POSITIONS):
            for i in (0, len(NAMES), len(NAMES) + 17):
                yield ("three", p, q, r, i, "decode_keys")
        for w, first, p, i, e in itertools.product(WITH, (0, 1), ("root", "list", "attr", "key", "tuple"), range(n), ENTRIES):
            yield ("with", w, first, p, i, e)
        for i in range(len(TEXTS)):
            yield ("unsafe", i)

    def run_case(self, case):
        if case[0] == "unsafe":
            return self.unsafe(case[1])
        payload = self.payloads()[case[-2]]
        r = {"py/repr": payload}
        if case[0] == "one":
            doc = POSITIONS[case[1]](r)
        elif case[0] == "two":
            doc = POSITIONS[case[1]](POSITIONS[case[2]](r))
        elif case[0] == "three":
            doc = POSITIONS[case[1]](POSITIONS[case[2]](POSITIONS[case[3]](r)))
        else:
            r = {**r, **WITH[case[1]]} if case[2] else {**WITH[case[1]], **r}
            doc = POSITIONS[case[3]](r)
        text = json.dumps(doc)
        self.step()
        self.state((text, case[-1]))
        AUDIT["seen"].clear()
        canary.HITS.clear()
        AUDIT["armed"] = True
        error = value = None
        try:
            value = ENTRIES[case[-1]](text)
        except (Exception, ClassNotFoundError) as e:  # noqa: BLE001
            error = e
        finally:
            AUDIT["armed"] = False
        named = isinstance(payload, str) and payload in NAMES
        if AUDIT["seen"] or (canary.HITS and not named):
            raise Violation(f"evaluated {AUDIT['seen']} {canary.HITS} from {text}")
        if case[0] == "one" and case[1] in READ and case[1:4:2] != ("dict", "decode_v1"):
            if error is not None:
                if isinstance(payload, str) and payload.count("/") == 1:
                    if payload.split("/")[0]:
                        raise Violation(f"{error!r} for {text}")
                return
            got = READ[case[1]](value)
            if got is Violation:
                raise Violation(f"the neighbours are wrong in {value!r} from {text}")
            want = NAMES[payload]() if named else None
            if got is not want and got != want:
                raise Violation(f"{got!r} instead of {want!r} from {text}")

    def unsafe(self, i):
        payload = TEXTS[i]
        if payload not in ("mc.canary/mc.canary.hit()", "mc.canary/mc.canary.Thing.run()", "mc/mc.canary.hit()"):
            return
        canary.HITS.clear()
        text = json.dumps([{"py/repr": payload}])
        self.step()
        got = jsonpickle.decode(text, safe=False)
        if got != [42] or len(canary.HITS) != 1:
            raise Violation(f"safe=False gives {got} for {text}")


CHECK = C14
