"""C10: encoding is pure and deterministic."""

import hashlib
import itertools
import json
import os
import subprocess
import sys

import jsonpickle

from .. import graphs, live_zoo, rt, zoo
from ..core import VERIF, Check, Violation
from ..snap import first_difference, snap
from ..values import GROUPS, V
from .c05 import DICTS, K

# sets of several strings are in hash order, opaque values have no contents to compare
NAMES = [n for g, ns in GROUPS.items() if g not in ("opaque", "null_stored", "nonfinite") for n in ns]
PLAIN = [n for g in ("null", "bool", "int", "float", "str", "bytes", "container", "instance") for n in GROUPS[g]
         if not n.startswith("fset") and n not in ("set_fset", "data_1", "frozen_1")]
SINGLE = [
    {},
    {"unpicklable": False},
    {"make_refs": False},
    {"keys": True},
    {"max_depth": 2},
    {"numeric_keys": True},
    {"use_base85": True},
    {"include_properties": True},
    {"handle_readonly": True},
    {"warn": True},
    {"fail_safe": repr},
    {"indent": 1},
    {"separators": (",", ":")},
    {"max_iter": 1},
]
PAIRS = [{**a, **b} for a, b in itertools.combinations(SINGLE[1:], 2)]
SPACE = SINGLE + PAIRS
LOSSLESS = {"use_base85", "keys", "warn", "fail_safe", "indent", "separators", "handle_readonly"}
KINDS = [k for k in graphs.KINDS if k != "set"]
PLAIN_KINDS = ["list", "dict", "tuple", "plain", "inner", "slots", "slots3", "list_sub", "dict_sub"]


def reject(token):
    raise Violation(f"{token} is not JSON")


def owner():
    """An object whose class attributes have the names of keys inside it."""
    o = zoo.ClassDefaults()
    o.data = {"a": 1, "b": [2], "data": 3, "__doc__": 4, "__class__": 5}
    o.more = {"mc": {"b": 1}}
    return o


def prop_owner():
    o = zoo.WithProperty()
    o._x = [1]
    o.data = {"x": [2], "readonly": 3, "make": 4, "stat": 5, "_x": 6}
    return o


EXTRA = {"owner": owner, "prop_owner": prop_owner}


def digest(names):
    out = []
    for n in names:
        for o in ({}, {"unpicklable": False}, {"make_refs": False}, {"keys": True}):
            x = [V[n](), {"k": V[n]()}]
            out.append(jsonpickle.encode(x, **o))
    return hashlib.sha256("\n".join(out).encode("utf-8", "surrogatepass")).hexdigest()


PROCESS_NAMES = [n for n in NAMES if not n.startswith(("set_", "fset", "setsub"))]


class C10(Check):
    id = "C10"
    technique = "exhaustive enumeration of object graphs times option sets, full snapshots before and after, repeated encoding"
    rule = "every value in every context and every small graph under every single option and option pair; a state is an option set with a text"

    @property
    def bounds(self):
        return {"options": f"{len(SINGLE)} single, {len(PAIRS)} pairs", "objects": "2, all kinds", "with default options": 3,
                "processes": "three hash seeds"}

    def cases(self):
        for o in range(len(SPACE)):
            contexts = rt.CONTEXTS if o < len(SINGLE) or self.thorough else ("list", "attr", "dictsub")
            # reading every property of a library class is not part of the claim
            names = PLAIN if "include_properties" in SPACE[o] else NAMES
            for c in contexts:
                for n in names:
                    yield ("ctx", o, c, n)
            for n in EXTRA:
                for c in ("bare", "list", "attr"):
                    yield ("extra", o, c, n)
            for live in itertools.product(live_zoo.EXCLUDES, live_zoo.HOOKS, (False, True), (False, True)):
                if live[0] == "set" and "include_properties" in SPACE[o]:
                    continue  # attributes of the class are handed to the backend
                for c in ("bare", "list", "attr") if o < len(SINGLE) or self.thorough else ("list",):
                    yield ("live", o, c, live)
            kinds = PLAIN_KINDS if "include_properties" in SPACE[o] else KINDS
            for t in graphs.terms(kinds, 2 if o < len(SINGLE) or self.thorough else 1, (0,), rt.arities(2)):
                yield ("g", o, t)
            for d in DICTS:
                for k in K:
                    if "include_properties" not in SPACE[o]:
                        yield ("key", o, d, k)
        for t in graphs.terms(["list", "dict", "tuple", "plain", "slots"], 3, (), rt.arities(2)):
            yield ("g", 0, t)
        for t in graphs.terms(["plain", "dict_sub", "reduced", "getset", "handled", "error"], 3, (), rt.arities(2)):
            yield ("g", 0, t)
        for seed in ("0", "1", "2"):
            for i in range(8):
                yield ("process", seed, i)

    def run_case(self, case):
        kind = case[0]
        if kind == "process":
            return self.process(case)
        opts = SPACE[case[1]]
        if kind == "ctx":
            x = rt.CONTEXTS[case[2]](V[case[3]])
        elif kind == "extra":
            x = rt.CONTEXTS[case[2]](EXTRA[case[3]])
        elif kind == "live":
            x = rt.CONTEXTS[case[2]](lambda: live_zoo.make(*case[3]))
        elif kind == "key":
            s = [1]
            x = [DICTS[case[2]]({"a": s, K[case[3]](): [s], "z": s}), s]
        else:
            x = graphs.build(case[2], [7])
            s = [1]
            x = [x, s, {"k": x}, s]
        before = snap(x, attr_order=True)
        text = jsonpickle.encode(x, **opts)
        after = snap(x, attr_order=True)
        self.step(2)
        self.state((case[1], text))
        if before != after:
            raise Violation(f"encoding with {opts} changed the value: {first_difference(before, after)}")
        again = jsonpickle.encode(x, **opts)
        if again != text:
            raise Violation(f"with {opts} encoded as {text[:400]}\n  the second time as {again[:400]}")
        if type(text) is not str:
            raise Violation(f"encode returned {type(text)}")
        if case[-1] not in ("c_m", "nan", "inf", "minf") or kind == "g":
            json.loads(text, parse_constant=reject)
        if set(opts) <= LOSSLESS and kind not in ("extra", "live") and "method" not in case:
            if case[-1] in ("set_mixed", "set_fset", "fset_1", "setsub", "fs_0", "fs_1", "tup_5"):
                return  # the order of a set depends on how it was filled
            if (kind == "key" and "keys" not in opts) or (kind == "g" and not graphs.closable(case[2])):
                return
            back = jsonpickle.decode(text, **rt.dec_opts(opts))
            third = jsonpickle.encode(back, **opts)
            self.step(2)
            if third != text:
                raise Violation(f"with {opts} encoded as {text[:400]}\n  the decoded copy as {third[:400]}")

    def process(self, case):
        names = PROCESS_NAMES[case[2]::8]
        env = dict(os.environ, PYTHONHASHSEED=case[1])
        code = f"import sys; from mc.checks.c10 import digest; print(digest({names!r}))"
        r = subprocess.run([sys.executable, "-c", code], cwd=VERIF, env=env, capture_output=True, text=True, timeout=100)
        self.step(len(names) * 8)
        if r.returncode != 0:
            raise Violation(f"encoding in another process failed: {r.stderr[-800:]}")
        if r.stdout.strip() != digest(names):
            raise Violation(f"one of {names} is encoded differently in another process")


CHECK = C10
