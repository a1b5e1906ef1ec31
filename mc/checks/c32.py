"""C32: running out of stack is reported, never turned into a wrong result."""

import json
import sys

import jsonpickle
from jsonpickle.pickler import Pickler
from jsonpickle.unpickler import Unpickler

from .. import deep_zoo, graphs, rt, values, zoo
from ..core import RECURSION, Check, Skip, Violation
from ..snap import first_difference, snap
from .c11 import ADDRESS
from .c13 import probe
from .c31 import KINDS, standard

POPTS = [{}, {"keys": True}, {"unpicklable": False}, {"make_refs": False}, {"include_properties": True}, {"warn": True, "use_base85": True, "indent": 1}, {"handle_readonly": True}]
PAIRS = ["list", "dict", "plain", "slots", "dict_sub", "list_sub", "reduced", "reduce_state", "getset", "handled", "ddict", "error"]
NESTS = {
    "list": lambda x: [x],
    "dict": lambda x: {"a": x},
    "tuple": lambda x: (x,),
    "key": lambda x: {(1, 2): x},
    "plain": lambda x: _with(zoo.Plain(), x),
    "slots": lambda x: _with(zoo.Slots(), x),
    "list_sub": lambda x: zoo.ListSub([x]),
    "dict_sub": lambda x: zoo.DictSub(a=x),
    "reduced": lambda x: zoo.rebuild(x, 1),
    "handled": lambda x: _with(zoo.Handled(), x),
}
HOLD = {
    "bare": lambda x: x,
    "list": lambda x: [x, [x]],
    "attr": lambda x: _with(zoo.Plain(), x),
    "state": lambda x: _with(zoo.GetSet(), x),
    "slot": lambda x: _with(zoo.Slots(), x),
    "args": lambda x: zoo.rebuild(x, 1),
    "held": lambda x: _with(zoo.Handled(), x),
    "tuple": lambda x: (x, (1,)),
    "item": lambda x: zoo.DictSub(a=x),
}
FIRST = 8  # frames that calling the function under test takes itself
LAST = 1500


def _with(obj, x):
    obj.a, obj.b = x, None
    return obj


def depth():
    frame, n = sys._getframe(), 0
    while frame:
        frame, n = frame.f_back, n + 1
    return n


def limited(fn, frames):
    """(result, error) of a call that may use so many frames"""
    sys.setrecursionlimit(depth() + frames)
    try:
        return fn(), None
    except BaseException as e:  # noqa: BLE001
        return None, e.with_traceback(None)
    finally:
        sys.setrecursionlimit(RECURSION)


class C32(Check):
    id = "C32"
    level = "fault_enumeration"
    technique = "enumeration of every stack size up to the one the call needs, differential against undisturbed runs"
    rule = "every graph, value and nesting within the bound, every option set and every number of frames from the smallest to the sufficient one"

    @property
    def bounds(self):
        return {"objects": 2, "kinds": len(KINDS), "values": len(values.V), "nesting": 12, "encoder options": len(POPTS), "stack sizes": "all"}

    assumptions = ("the stack runs out when the frame limit of the interpreter is reached",)

    def setup(self):
        self.points = 0
        self.want_probe = json.dumps(Pickler().flatten(probe()))
        self.want_snap = snap(jsonpickle.decode(self.want_probe))

    def extra_coverage(self):
        return {"fault_points": self.points}

    def cases(self):
        for k in KINDS:
            for t in graphs.terms(["list", k], 2, (0,) if self.thorough else (), rt.arities(2)):
                if k in str(t):
                    yield ("graph", 0, t)
            for t in graphs.terms([k], 1, (0,), rt.arities(2)):
                for o in range(1, len(POPTS)):
                    yield ("graph", o, t)
        for t in graphs.terms(PAIRS, 2, (0,) if self.thorough else (), rt.arities(1)):
            yield ("graph", 0, t)
            yield ("graph", 1, t)
        for name in values.V:
            for o in range(len(POPTS)):
                yield ("value", o, name)
        for name in deep_zoo.NAMES:
            for place in HOLD:
                for o in range(len(POPTS)):
                    yield ("deep", o, (name, place))
        for name in dict(standard()):
            yield ("standard", 0, name)
        for a in NESTS:
            for b in NESTS:
                for d in (4, 12, 24) if self.thorough else (4, 12):
                    for o in (0, 1):
                        yield ("nest", o, (a, b, d))

    def make(self, how, what):
        if how == "graph":
            return graphs.build(what, [7])
        if how == "value":
            return values.make(what)
        if how == "deep":
            return HOLD[what[1]](deep_zoo.make(what[0]))
        if how == "standard":
            return dict(standard())[what]
        a, b, d = what
        x = [1]
        for i in range(d):
            x = NESTS[b if i % 2 else a](x)
        return x

    def run_case(self, case):
        how, o, what = case
        opts = POPTS[o]
        s = [1]
        make = lambda: [s, self.make(how, what), {"s": s}, s]  # noqa: E731
        if "handle_readonly" in opts:
            # only attributes of the object itself can be left out
            make = lambda: self.make(how, what)  # noqa: E731
        p = Pickler(**{k: v for k, v in opts.items() if k != "indent"})
        try:
            want = ADDRESS.sub("", jsonpickle.encode(make(), **opts))
        except RecursionError:
            raise Skip from None
        except Exception:  # noqa: BLE001
            self.outcome("unencodable")
            return
        self.state((str(opts), want))
        # of another copy: taking it makes some values compute what they cache
        before = snap(make())
        if before != snap(make()) or "Stream" in what:
            before = None  # an iterator is used up by reading it, other things are made of things that are compared by identity
        for name, fn in (("encode", lambda x: jsonpickle.encode(x, **opts)), ("flatten", lambda x: json.dumps(p.flatten(x)))):
            first = ADDRESS.sub("", fn(make()))
            for n in range(FIRST, LAST):
                x = make()
                text, err = limited(lambda: fn(x), n)  # noqa: B023
                self.points += 1
                self.step()
                where = f"{name} with {opts} and {n} frames, text {first}"
                if err is None:
                    if ADDRESS.sub("", text) != first:
                        raise Violation(f"{where}: encoded as {text}")
                    break
                if not isinstance(err, RecursionError):
                    raise Violation(f"{where}: {err!r} instead of a RecursionError")
                if before is not None and snap(x) != before:
                    raise Violation(f"{where}: the value changed: {first_difference(before, snap(x))}")
                if not opts and name == "flatten":
                    other = json.dumps(p.flatten(probe()))
                    self.step()
                    if other != self.want_probe:
                        raise Violation(f"{where}: another value is later encoded as {other}\n  instead of {self.want_probe}")
            else:
                raise Violation(f"{name} with {opts} needs more than {LAST} frames: {first}")
        if "unpicklable" in opts:
            return
        self.decode(jsonpickle.encode(make(), **opts), {k: v for k, v in opts.items() if k == "keys"})

    def decode(self, text, opts):
        data = json.loads(text)
        u = Unpickler(**opts)
        for name, fn in (("decode", lambda: jsonpickle.decode(text, **opts)), ("restore", lambda: u.restore(data))):
            try:
                want = snap(fn())
                if want != snap(fn()):
                    want = None  # made of things that are compared by identity
            except Exception:  # noqa: BLE001
                self.outcome("undecodable")
                return
            for n in range(FIRST, LAST):
                value, err = limited(fn, n)
                self.points += 1
                self.step()
                where = f"{name} with {opts} and {n} frames of {text}"
                if err is None:
                    if want is not None and snap(value) != want:
                        raise Violation(f"{where}: decoded differently: {first_difference(want, snap(value))}")
                    break
                if not isinstance(err, RecursionError):
                    raise Violation(f"{where}: {err!r} instead of a RecursionError")
                if name == "restore":
                    if data != json.loads(text):
                        raise Violation(f"{where}: the data was changed to {data}")
                    if snap(u.restore(json.loads(self.want_probe))) != self.want_snap:
                        raise Violation(f"{where}: another text is later decoded differently by the same object")
                    self.step()
            else:
                raise Violation(f"{name} with {opts} needs more than {LAST} frames: {text}")


CHECK = C32
