"""C18: the backend manager acts like an ordered list of backends."""

import itertools
import json
import sys
import types

import jsonpickle
from jsonpickle.backend import JSONBackend

from ..core import Check, Skip, Violation

A, B, D = "mc_backend_a", "mc_backend_b", "mc_backend_pkg.sub.d"
NAMES = (A, B, D)
CHAIN = (A, B, D, *[f"mc_backend_{i}" for i in range(7)])
REAL = ("simplejson", "json", "ujson")


class Undeclared(Exception):
    pass


class Broken(Exception):
    """Raised by a backend; declared when it was loaded."""


class Recorder:
    """Every call of any backend, and which of them fail."""

    log = []
    failing = {}


def functions(name, variant):
    def dumps(obj, *args, **kwargs):
        Recorder.log.append((name, variant, "dumps", obj, args, kwargs))
        if name in Recorder.failing:
            raise Recorder.failing[name](name)
        return f"{name}/{variant}"

    def loads(text, *args, **kwargs):
        Recorder.log.append((name, variant, "loads", text, args, kwargs))
        if name in Recorder.failing:
            raise Recorder.failing[name](name)
        return [name, variant]

    return dumps, loads


def make_module(name, error):
    m = types.ModuleType(name)
    m.dumps, m.loads = functions(name, 1)
    m.dump_text, m.load_text = functions(name, 2)
    m.Error = error
    return m


def install():
    pkg, sub = types.ModuleType("mc_backend_pkg"), types.ModuleType("mc_backend_pkg.sub")
    d = make_module(D, Broken)
    pkg.sub, sub.d = sub, d
    # a top level package never answers for its submodule
    pkg.dumps, pkg.loads = functions("mc_backend_pkg", 1)
    sys.modules.update({A: make_module(A, Broken), B: make_module(B, Broken), D: d,
                        "mc_backend_pkg": pkg, "mc_backend_pkg.sub": sub})
    sys.modules.update({n: make_module(n, Broken) for n in CHAIN[3:]})


PER_NAME = ["load", "load2", "loadx", "bad_dumps", "bad_loads", "bad_exc", "remove", "prefer", "enc1", "enc2", "enc0", "dec1", "dec2"]
ALL = [(k, n) for n in NAMES for k in PER_NAME] + [("through", True), ("through", False), ("missing", ""), ("missing_attr", ""), ("prefer", "mc_no_such"), ("remove", "mc_no_such")]
MED = [(k, n) for n in NAMES for k in ("load", "remove", "prefer", "enc1")] + [("load2", A), ("dec1", B), ("through", False)]
SMALL = [(k, n) for n in (A, B) for k in ("load", "remove", "prefer")] + [("enc1", A), ("through", False)]
OPTS = {"enc1": ((), {"sort_keys": True}), "enc2": ((7,), {"indent": 3, "x": [1]}), "enc0": ((), {}),
        "dec1": ((), {"strict": False}), "dec2": ((8, 9), {"y": 2})}
STARTS = {"empty": (), "one": (("load", B),), "three": (("load", A), ("load", B), ("load", D)),
          "strict": (("load", A), ("load2", D), ("through", False))}


class Model:
    def __init__(self, names):
        self.order = list(names)
        self.variant = {n: 1 for n in names}
        self.errors = {n: ValueError for n in names}
        self.enc = {}
        self.dec = {}
        self.through = True

    def do(self, op):
        """Returns the expected result or exception type."""
        k, n = op
        if k == "through":
            self.through = n
        elif k in ("missing", "missing_attr"):
            return False
        elif k.startswith("bad"):
            if n in self.order or n in self.enc or n in self.dec:
                raise Skip  # what a failing second load leaves behind is not claimed
            return False
        elif k.startswith("load"):
            if n not in self.order:
                self.order.append(n)
            self.variant[n] = 2 if k == "load2" else 1
            self.errors[n] = {"load": ValueError, "load2": Broken, "loadx": Undeclared}[k]
            return True
        elif k == "remove":
            if n in self.order:
                self.order.remove(n)
            self.enc.pop(n, None)
            self.dec.pop(n, None)
        elif k == "prefer":
            if n not in self.order:
                return AssertionError
            self.order.remove(n)
            self.order.insert(0, n)
        elif k.startswith("enc"):
            self.enc[n] = OPTS[k]
        elif k.startswith("dec"):
            self.dec[n] = OPTS[k]
        return None

    def calls(self, what, obj, failing, extra):
        """The calls made and the answer: ('ok', value) or ('raise', name)."""
        if not self.order:
            return [], ("raise", AssertionError, None)
        out = []
        for i, n in enumerate(self.order):
            args, kwargs = (self.enc if what == "dumps" else self.dec).get(n, ((), {}))
            out.append((n, self.variant[n], what, obj, args, {**kwargs, **extra}))
            exc = failing.get(n)
            if exc is None:
                v = self.variant[n]
                return out, ("ok", f"{n}/{v}" if what == "dumps" else [n, v])
            go_on = self.through and (what == "dumps" or issubclass(exc, self.errors[n]))
            if not go_on or i == len(self.order) - 1:
                return out, ("raise", exc, n)

    def key(self):
        return (self.order, sorted(self.variant.items()), sorted((n, str(e)) for n, e in self.errors.items()),
                sorted(map(repr, self.enc.items())), sorted(map(repr, self.dec.items())), self.through)


def perform(m, op):
    k, n = op
    if k == "through":
        return m.enable_fallthrough(n)
    if k == "missing":
        return m.load_backend("mc_no_such_module")
    if k == "missing_attr":
        return m.load_backend("mc_backend_pkg.sub.nothing")
    if k == "load":
        return m.load_backend(n)
    if k == "load2":
        return m.load_backend(n, dumps="dump_text", loads="load_text", loads_exc="Error")
    if k == "loadx":
        return m.load_backend(n, "dumps", "loads", Undeclared)
    if k == "bad_dumps":
        return m.load_backend(n, dumps="nothing")
    if k == "bad_loads":
        return m.load_backend(n, loads="nothing")
    if k == "bad_exc":
        return m.load_backend(n, loads_exc="Nothing")
    if k == "remove":
        return m.remove_backend(n)
    if k == "prefer":
        return m.set_preferred_backend(n)
    args, kwargs = OPTS[k]
    if k.startswith("enc"):
        return m.set_encoder_options(n, *args, **kwargs)
    return m.set_decoder_options(n, *args, **kwargs)


class Facade:
    """The functions of the package, which act on the default backend."""

    load_backend = staticmethod(jsonpickle.load_backend)
    remove_backend = staticmethod(jsonpickle.remove_backend)
    set_preferred_backend = staticmethod(jsonpickle.set_preferred_backend)
    set_encoder_options = staticmethod(jsonpickle.set_encoder_options)
    set_decoder_options = staticmethod(jsonpickle.set_decoder_options)
    enable_fallthrough = staticmethod(jsonpickle.enable_fallthrough)

    @staticmethod
    def encode(obj, indent=None, separators=None):
        return jsonpickle.encode(obj, indent=indent, separators=separators)

    decode = staticmethod(jsonpickle.decode)
    dumps = encode
    loads = decode


class C18(Check):
    id = "C18"
    technique = "exhaustive enumeration of operation histories of the backend manager with failing backends, against a list model"
    rule = "every history of the bounded length, then every failure pattern; a state is a distinct content of the model"

    @property
    def bounds(self):
        n = 1 if self.thorough else 0
        return {"backends": 3, "backends in chains": len(CHAIN), f"length over {len(ALL)} operations": 3, f"length over {len(MED)}": 4 + n,
                f"length over {len(SMALL)}": 5 + n, "start states": len(STARTS), "failure patterns": "every prefix of backends failing with declared or undeclared errors"}

    def setup(self):
        install()

    def cases(self):
        n = 1 if self.thorough else 0
        for s in STARTS:
            for where in ("new", "default"):
                yield ("all", s, where, ())
                for r in (1, 2):
                    for seq in itertools.product(range(len(ALL)), repeat=r):
                        yield ("all", s, where, seq)
        for s in STARTS if n else ("empty", "three"):
            for seq in itertools.product(range(len(ALL)), repeat=3):
                yield ("all", s, "new", seq)
        for seq in itertools.product(range(len(MED)), repeat=4 + n):
            yield ("med", "empty", "new", seq)
        for s in STARTS:
            for seq in itertools.product(range(len(SMALL)), repeat=5 + n):
                yield ("small", s, "new", seq)
        for ops in itertools.product(range(len(REAL) * 2), repeat=3 + n):
            yield ("real", ops)
        chain_ops = [(o, k) for o in ("load", "load2", "prefer", "remove", "enc1", "dec1") for k in range(len(CHAIN))]
        for size in range(4, len(CHAIN) + 1):
            yield ("chain", size, ())
            for a in chain_ops:
                yield ("chain", size, (a,))
                for b in chain_ops:
                    yield ("chain", size, (a, b))
        yield ("two managers",)

    def run_case(self, case):
        if case[0] == "real":
            return self.real(case[1])
        if case[0] == "two managers":
            return self.two()
        if case[0] == "chain":
            m = JSONBackend()
            for name in REAL:
                m.remove_backend(name)
            ops = [("load", n) for n in CHAIN[: case[1]]] + [(o, CHAIN[k]) for o, k in case[2]]
            return self.history(m, ops, Model(()))
        alphabet = {"all": ALL, "med": MED, "small": SMALL}[case[0]]
        ops = STARTS[case[1]] + tuple(alphabet[i] for i in case[3])
        if case[2] == "new":
            m = JSONBackend()
            for name in REAL:
                m.remove_backend(name)
            self.history(m, ops, Model(()))
            return
        m = Facade
        try:
            for name in REAL:
                m.remove_backend(name)
            self.history(m, ops, Model(()))
        finally:
            for name in NAMES:
                m.remove_backend(name)
            for name in REAL:
                m.remove_backend(name)
                m.load_backend(name)
                m.set_encoder_options(name, sort_keys=False, **({"escape_forward_slashes": False} if name == "ujson" else {}))
            m.enable_fallthrough(True)

    def history(self, m, ops, model):
        Recorder.failing = {}
        for op in ops:
            want = model.do(op)
            self.step()
            try:
                got = perform(m, op)
            except AssertionError:
                got = AssertionError
            if got is not want:
                raise Violation(f"{op} gives {got!r} instead of {want!r} in {ops}")
        self.state(model.key())
        self.observe(m, model, ops)

    def observe(self, m, model, ops):
        order = model.order
        patterns = [{}]
        for k in range(1, len(order) + 1):
            patterns.append({n: model.errors[n] for n in order[:k]})
            patterns.append({**{n: model.errors[n] for n in order[: k - 1]}, order[k - 1]: KeyError})
            if k > 1:
                patterns.append({n: model.errors[n] for n in order[1:k]})
        obj = [1, {"k": None}]
        for failing in patterns:
            for what, extra in (("dumps", {}), ("dumps", {"indent": 2}), ("dumps", {"separators": (",", ":")}), ("loads", {})):
                if failing and extra:
                    continue
                for name in ((what, "encode" if what == "dumps" else "decode") if m is not Facade and not failing and not extra else (what,)):
                    arg = obj if what == "dumps" else '[1, {"k": null}]'
                    calls, answer = model.calls(what, arg, failing, extra)
                    Recorder.log, Recorder.failing = [], failing
                    self.step()
                    try:
                        got = ("ok", getattr(m, name)(arg, **extra))
                    except Exception as exc:  # noqa: BLE001
                        got = ("raise", type(exc), exc.args[0] if Recorder.log else None)
                    finally:
                        Recorder.failing = {}
                    if got != answer:
                        raise Violation(f"{name}{extra or ''} with failing {failing} gives {got} instead of {answer} after {ops}")
                    if [tuple(c[:3]) + (c[4], c[5]) for c in Recorder.log] != [tuple(c[:3]) + (c[4], c[5]) for c in calls]:
                        raise Violation(f"{name}{extra or ''} with failing {failing} calls {Recorder.log} instead of {calls} after {ops}")
                    if any(c[3] != arg for c in Recorder.log):
                        raise Violation(f"{name} passes {Recorder.log} instead of {arg!r} after {ops}")

    def real(self, ops):
        """Managers start with simplejson, json and ujson in this order."""
        saved = {n: sys.modules.get(n) for n in REAL}
        fakes = {n: make_module(n, ValueError) for n in REAL}
        try:
            sys.modules.update(fakes)
            m = JSONBackend()
        finally:
            for n, old in saved.items():
                sys.modules[n] = old
        order = list(REAL)
        Recorder.failing = {}
        for i in ops:
            name = REAL[i % 3]
            self.step()
            if i < 3:
                m.remove_backend(name)
                if name in order:
                    order.remove(name)
            else:
                try:
                    m.set_preferred_backend(name)
                    ok = True
                except AssertionError:
                    ok = False
                if ok != (name in order):
                    raise Violation(f"preferring {name} after {ops}")
                if ok:
                    order.remove(name)
                    order.insert(0, name)
        self.state(("real", order))
        for k in range(len(order) + 1):
            Recorder.failing = {n: ValueError for n in order[:k]}
            for f, arg in ((m.encode, [1]), (m.decode, "[1]")):
                Recorder.log = []
                self.step()
                try:
                    f(arg)
                    ok = True
                except ValueError:
                    ok = False
                except AssertionError:
                    ok = None
                want = None if not order else k < len(order)
                if ok is not want or [c[0] for c in Recorder.log] != order[: k + 1]:
                    raise Violation(f"order {[c[0] for c in Recorder.log]} instead of {order[:k + 1]} after {ops}")
        Recorder.failing = {}

    def two(self):
        """Managers are independent of each other and of the default one."""
        one, other = JSONBackend(), JSONBackend(fallthrough=False)
        before = jsonpickle.encode({"a": [1]})
        for name in REAL:
            one.remove_backend(name)
        one.load_backend(A)
        one.set_encoder_options("json", indent=1)
        self.step(8)
        if json.loads(other.encode([1])) != [1] or jsonpickle.encode({"a": [1]}) != before:
            raise Violation("removing a backend from one manager affects another")
        if one.encode([1]) != f"{A}/1" or jsonpickle.encode([1], backend=one) != f"{A}/1" or jsonpickle.decode("x", backend=one) != [A, 1]:
            raise Violation("the manager passed is not used")
        other.load_backend(B)
        other.set_preferred_backend(B)
        Recorder.failing = {B: ValueError}
        try:
            other.encode([1])
        except ValueError:
            pass
        else:
            raise Violation("fallthrough=False is not kept")
        finally:
            Recorder.failing = {}


CHECK = C18
