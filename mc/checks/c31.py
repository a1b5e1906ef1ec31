"""C31: an interrupt at any point surfaces and leaves no trace."""

import collections
import datetime
import decimal
import json
import os
import re
import sys
import uuid

import jsonpickle
from jsonpickle import handlers
from jsonpickle.pickler import Pickler
from jsonpickle.unpickler import Unpickler

from .. import graphs, rt, zoo
from ..core import Check, Violation
from ..snap import first_difference, snap
from .c11 import ADDRESS
from .c13 import probe

HERE = os.path.dirname(os.path.abspath(jsonpickle.__file__)) + os.sep
KINDS = ["list", "dict", "tuple", "set", "plain", "slots", "dict_sub", "list_sub", "set_sub", "reduced", "reduce_state", "newargs", "newargs_ex", "getset",
         "handled", "ddict", "odict", "deque", "error", "data", "frozen"]
PAIRS = ["dict", "plain", "getset", "handled", "reduced"]
POPTS = [{}, {"keys": True}, {"unpicklable": False}, {"make_refs": False}, {"max_depth": 1}, {"fail_safe": repr},
         {"include_properties": True}, {"handle_readonly": True}, {"warn": True, "use_base85": True}]


class Interrupt:
    """Counts the lines of jsonpickle that run and interrupts at the k-th."""

    def __init__(self, at=0, kind=KeyboardInterrupt):
        self.at, self.count, self.error, self.where, self.kind = at, 0, None, None, kind

    def call(self, frame, event, arg):
        return self.line if frame.f_code.co_filename.startswith(HERE) else None

    def line(self, frame, event, arg):
        if event == "line":
            self.count += 1
            if self.count == self.at:
                self.where = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}"
                self.error = self.kind("stop")
                raise self.error
        return self.line

    def run(self, fn):
        """(result, error)"""
        sys.settrace(self.call)
        try:
            return fn(), None
        except BaseException as e:  # noqa: BLE001
            return None, e
        finally:
            sys.settrace(None)


def standard():
    s = [1]
    yield "dates", [datetime.datetime(2020, 1, 2, 3, tzinfo=datetime.timezone.utc), s, datetime.date(2020, 1, 2), s]
    yield "regex", [re.compile("a+", re.I), s, uuid.UUID(int=5), s]
    yield "numbers", [decimal.Decimal("1.50"), s, 1 + 2j, s, b"\x00\xff", bytearray(b"x")]
    yield "containers", [collections.OrderedDict(a=s), collections.Counter("aab"), collections.deque([s], 3), s]
    yield "factory", [collections.defaultdict(list, a=s), s, collections.defaultdict(zoo.Plain)]
    yield "references", [zoo.Plain, len, json, s, os.path.join, s]
    yield "keys", {1: s, "a": s, None: (s,), (1, 2): {3: s}}
    yield "range", [range(3), s, slice(1, 2), iter([1, s]), frozenset([1]), s]
    yield "enum", [zoo.Color.RED, s, {"c": zoo.Color.RED}, s]


class C31(Check):
    id = "C31"
    level = "fault_enumeration"
    technique = "enumeration of every executed line of the library as the point of an interrupt, differential against undisturbed runs"
    rule = "every graph and value within the bound, every option set and every line that the call executes as the interrupted one"
    bounds = {"objects": 2, "kinds": len(KINDS), "encoder options": len(POPTS), "interrupt points": "all lines executed by the call"}
    assumptions = ("an interrupt is delivered between two lines of the library",)

    def setup(self):
        self.points = 0
        self.want_probe = json.dumps(Pickler().flatten(probe()))
        self.want_snap = snap(jsonpickle.decode(self.want_probe))

    def extra_coverage(self):
        return {"fault_points": self.points}

    def cases(self):
        atoms, arities = ((0,), rt.arities(2)) if self.thorough else ((), rt.arities(1))
        for k in KINDS:
            for t in graphs.terms([k], 1, (0,), arities):
                for o in range(len(POPTS)):
                    yield ("graph", o, t)
        for k in KINDS:
            for t in graphs.terms(["list", k], 2, atoms, arities):
                if k in str(t):
                    yield ("graph", 0, t)
        for t in graphs.terms(PAIRS, 2, (), rt.arities(1)) if self.thorough else ():
            yield ("graph", 1, t)
        for name in dict(standard()):
            for o in range(len(POPTS)):
                yield ("value", o, name)

    def run_case(self, case):
        how, o, what = case
        x = graphs.build(what, [7]) if how == "graph" else dict(standard())[what]
        s = [1]
        once = how == "value" and what == "range"
        make = (lambda: [s, dict(standard())[what], s]) if once else (lambda x=[s, x, s]: x)
        opts = POPTS[o]
        if "include_properties" in opts and what in ("numbers", "dates", "containers"):
            return  # the class attributes of these are written too, which takes very long
        self.encode_faults(make, opts)
        if {"unpicklable", "max_depth"} & set(opts):
            return
        text = jsonpickle.encode(make(), **opts)
        self.decode_faults(text, {k: v for k, v in opts.items() if k in ("keys", "handle_readonly")})

    def encode_faults(self, make, opts):
        p = Pickler(**opts)
        registry = self.registry()
        if "handle_readonly" in opts:
            # needs to know the value when the object is made
            ways = {"encode": lambda x: jsonpickle.encode(x, **opts)}
        else:
            ways = {"encode": lambda x: jsonpickle.encode(x, context=p)}
        for name, fn in ways.items():
            run = Interrupt()
            text, err = run.run(lambda: fn(make()))  # noqa: B023
            if err is not None:
                # not possible with these options
                self.outcome("unencodable")
                return
            text = ADDRESS.sub("", text)
            self.state((name, str(opts), text))
            for k in range(1, run.count + 1):
                x = make()
                before = snap(x)
                stop = Interrupt(k)
                value, err = stop.run(lambda: fn(x))  # noqa: B023
                self.points += 1
                where = f"{name} with {opts} interrupted at line {k} ({stop.where}), text {text}"
                if stop.error is None or err is not stop.error:
                    raise Violation(f"{where}: {err!r} instead of {stop.error!r}, result {value!r}")
                if snap(x) != before:
                    raise Violation(f"{where}: the value changed: {first_difference(before, snap(x))}")
                again = ADDRESS.sub("", fn(make()))
                if again != text:
                    raise Violation(f"{where}: later encoded as {again}")
                if not opts:
                    Interrupt(k).run(lambda: fn(x))  # noqa: B023
                    other = json.dumps(p.flatten(probe()))
                    if other != self.want_probe:
                        raise Violation(f"{where}: another value is later encoded as {other}\n  instead of {self.want_probe}")
                self.step(2)
            again = ADDRESS.sub("", jsonpickle.encode(make(), **opts))
            if again != text:
                raise Violation(f"interrupted calls with {opts} changed what another call gives: {again}\n  instead of {text}")
        if self.registry() != registry:
            raise Violation(f"interrupted encode calls with {opts} changed the registered handlers")

    def decode_faults(self, text, opts):
        data = json.loads(text)
        u = Unpickler(**opts)
        want = None
        registry = self.registry()
        ways = {"restore": lambda: u.restore(data)} if opts else {"decode": lambda: jsonpickle.decode(text, context=u)}
        for name, fn in ways.items():
            run = Interrupt()
            first, err = run.run(fn)
            if err is not None:
                raise Violation(f"{name} of {text} raised {err!r}")
            want = snap(first)
            for k in range(1, run.count + 1):
                stop = Interrupt(k)
                value, err = stop.run(fn)
                self.points += 1
                where = f"{name} with {opts} interrupted at line {k} ({stop.where}), text {text}"
                if stop.error is None or err is not stop.error:
                    raise Violation(f"{where}: {err!r} instead of {stop.error!r}, result {value!r}")
                if name == "restore" and data != json.loads(text):
                    raise Violation(f"{where}: the data was changed to {data}")
                again = snap(fn())
                if again != want:
                    raise Violation(f"{where}: later decoded differently: {first_difference(want, again)}")
                if not opts:
                    Interrupt(k).run(fn)
                    if snap(u.restore(json.loads(self.want_probe))) != self.want_snap:
                        raise Violation(f"{where}: another text is later decoded differently by the same object")
                self.step(2)
            again = snap(jsonpickle.decode(text, **opts))
            if again != want:
                raise Violation(f"interrupted calls with {opts} changed what another call gives: {first_difference(want, again)}")
        if self.registry() != registry:
            raise Violation(f"interrupted decode calls with {opts} changed the registered handlers")

    def registry(self):
        return [handlers.get(c) for c in (zoo.Handled, zoo.Plain, list, datetime.datetime, uuid.UUID)]


CHECK = C31
