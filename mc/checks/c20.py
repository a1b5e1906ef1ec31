"""C20: concurrent calls do not interfere."""

import collections
import datetime
import itertools
import warnings

import numpy as np

import jsonpickle
import jsonpickle.ext.numpy
from jsonpickle import handlers
from jsonpickle.pickler import Pickler
from jsonpickle.unpickler import Unpickler

from .. import registry_zoo, sched, zoo
from ..core import Check, Violation
from ..snap import snap


class Node:
    pass


class Other:
    pass


class Kept:
    pass


class Other2:
    pass


class Late2:
    pass


class Held:
    def __init__(self, x=None):
        self.x = x


class HeldSub(Held):
    pass


class Failing:
    def __getstate__(self):
        raise ValueError("no state")


class HeldHandler(handlers.BaseHandler):
    """Registered as one instance, used by every thread."""

    def flatten(self, obj, data):
        data["x"] = self.context.flatten(obj.x, reset=False)
        data["again"] = self.context.flatten([obj.x], reset=False)
        return data

    def restore(self, data):
        o = Held()
        o.x = self.context.restore(data["x"], reset=False)
        again = self.context.restore(data["again"], reset=False)
        assert again[0] is o.x, "the reference inside of the handled object is wrong"
        return o


class ClassHandler(HeldHandler):
    """Registered as a class and told its own context."""

    def flatten(self, obj, data, handler_context=None):
        data["hc"] = handler_context
        return super().flatten(obj, data)

    def restore(self, data, handler_context=None):
        assert data["hc"] == handler_context, (data["hc"], handler_context)
        return super().restore(data)


class ByClass(Held):
    pass


class Late:
    pass


def node(**kw):
    n = Node()
    vars(n).update(kw)
    return n


def shared():
    s = [1]
    n = node(a=s)
    n.me = n
    return [n, s]


SHARED = shared()  # encoded by several threads at once
DEEP = node(a=(1, [node(c=b"x")]), k={(1, 2): [3]})


def enc(make, **opts):
    value = make()
    return lambda: jsonpickle.encode(value, **opts)


def dec(make, opts=None, **kw):
    text = jsonpickle.encode(make(), **(opts or {}))
    return lambda: snap(jsonpickle.decode(text, **kw), identity=True)


def held():
    h = HeldSub([1])
    return [h, h.x]


def tiny():
    return Held([])


def by_class():
    return [ByClass([1]), ByClass(2)]


def arrays():
    a = np.arange(20.0)
    return [a[2:5], a]


def stdlib():
    return [datetime.datetime(2020, 1, 2, 3), collections.deque([[2]], 3)]


def hooks():
    o = zoo.GetSet()
    o.a, o.b = [1], 2
    return [o, zoo.rebuild([1], 2)]


def keyed():
    return {(1, 2): [1], 3: {b"x": None}}


def as_registration(cls, handler, base):
    def op():
        handlers.register(cls, handler, base=base)
        got = handlers.get(cls), handlers.get(f"{cls.__module__}.{cls.__qualname__}")
        handlers.unregister(cls)
        return [g is handler for g in got], handlers.get(cls)

    return op


def keep():
    """Registered until the next schedule starts."""
    handlers.register(Kept, HeldHandler, base=True)
    return handlers.get(Kept) is HeldHandler


def own_backend():
    from jsonpickle.backend import JSONBackend

    m = JSONBackend()
    m.remove_backend("simplejson")
    m.set_preferred_backend("ujson")
    m.set_encoder_options("ujson", indent=1)
    return jsonpickle.encode([1, {"a": [2]}], backend=m), jsonpickle.decode("[1]", backend=m)


def picklers():
    p, u = Pickler(), Unpickler()
    flat = p.flatten(shared())
    return repr(flat), snap(u.restore(flat), identity=True)


def failing():
    return jsonpickle.encode([1, node(a=[Failing()])])


def fail_safe():
    return jsonpickle.encode([1, node(a=Failing()), Held([1])], fail_safe=lambda e: str(e))


def missing():
    with_class = type("Gone", (), {"__module__": "gone"})
    back = jsonpickle.decode('[{"py/object": "gone.Gone", "a": [1]}, {"py/id": 1}]', classes=with_class)
    return type(back[0]) is with_class, back[0].a, back[0] is back[1]


def operations():
    return {
        "e_shared": lambda: jsonpickle.encode(SHARED),
        "e_same": lambda: jsonpickle.encode(DEEP, keys=True, make_refs=False),
        "e_human": lambda: jsonpickle.encode(DEEP, unpicklable=False, max_depth=4),
        "d_shared": dec(shared),
        "e_held": enc(held),
        "d_held": dec(held),
        "e_tiny": enc(tiny),
        "d_tiny": dec(tiny),
        "e_flat": enc(tiny, unpicklable=False),
        "e_class": enc(by_class, handler_context={"n": 1}),
        "d_class": dec(by_class, {"handler_context": {"n": 2}}, handler_context={"n": 2}),
        "e_array": enc(arrays),
        "d_array": dec(arrays),
        "e_std": enc(stdlib),
        "d_std": dec(stdlib),
        "e_hook": enc(hooks),
        "d_hook": dec(hooks),
        "e_keys": enc(keyed, keys=True, indent=1),
        "d_keys": dec(keyed, {"keys": True}, keys=True),
        "pickler": picklers,
        "fails": failing,
        "fail_safe": fail_safe,
        "missing": missing,
        "backend": own_backend,
        "reg": as_registration(Other, HeldHandler, False),
        "reg_keep": keep,
        "reg_base": as_registration(Late, HeldHandler(None), True),
    }


OPS = list(operations())
DISTURBING = [n for n in OPS if n not in ("e_same", "e_tiny", "e_flat", "d_tiny", "e_std", "d_std", "e_hook", "d_hook", "pickler", "fails", "e_array", "reg")]
DISTURBED = [n for n in OPS if n not in ("e_same", "e_flat", "e_human", "pickler", "fails")]
NESTED = (("d_tiny", "reg_base", "e_tiny"), ("reg_base", "reg", "d_tiny"))
SHORT = ("e_tiny", "d_tiny", "reg_base")


class C20(Check):
    id = "C20"
    technique = "systematic exploration of thread interleavings under a deterministic scheduler, with bounded preemptions"
    rule = (
        "every switch point of the first thread for all pairs of operations; all pairs of switch points for pairs of "
        "short operations; a state is a pair of operations with the source position of the switch"
    )
    case_timeout = 600
    assumptions = ("threads switch between source lines of the package; switches inside a line are explored between bytecodes for single switches",)

    @property
    def bounds(self):
        return {"operations": len(OPS), "disturbing operations": len(OPS if self.thorough else DISTURBING), "threads": 3,
                "switches at source lines, all pairs": 1, "switches at bytecodes": 1 if self.thorough else "1, short operations",
                "switches at source lines, short operations": 2}

    def setup(self):
        warnings.simplefilter("ignore")
        jsonpickle.ext.numpy.register_handlers()
        handlers.register(Held, HeldHandler(None), base=True)
        handlers.register(ByClass, ClassHandler)
        handlers.register(registry_zoo.A, registry_zoo.H1, base=True)
        self.ops = operations()
        self.again = {"reg": as_registration(Other2, HeldHandler, False), "reg_base": as_registration(Late2, HeldHandler(None), True)}
        for op in self.ops.values():
            sched.alone(op)
        self.alone, self.length, self.fine = {}, {}, {}
        for n, op in self.ops.items():
            self.alone[n], self.length[n] = sched.alone(op)
            sched.alone(op, True)  # the first run under this tracing sees no events
            self.fine[n] = sched.alone(op, True)[1]
            if self.alone[n] != sched.alone(op)[0]:
                raise AssertionError(f"{n} gives no stable result")
        self.schedules = 0

    def extra_coverage(self):
        return {"schedules": self.schedules}

    def cases(self):
        for a, b in itertools.product(*((OPS, OPS) if self.thorough else (DISTURBED, DISTURBING))):
            if "reg_keep" != a:
                for part in range(4):
                    yield ("one", a, b, part, 4)
        for a, b in itertools.product(OPS if self.thorough else (*SHORT, "reg", "d_held"), SHORT):
            for part in range(8):
                yield ("fine", a, b, part, 8)
        for a, b in itertools.product(SHORT, repeat=2):
            if self.thorough or a == b == "d_tiny" or b == "reg_base":
                for part in range(32):
                    yield ("two", a, b, part, 32)
        for part in range(32):
            yield ("two", "e_tiny", "e_flat", part, 32)
        for a, b, c in itertools.permutations(SHORT, 3) if self.thorough else NESTED:
            for part in range(32):
                yield ("nested", a, b, c, part, 32)

    def run_case(self, case):
        kind, (part, parts) = case[0], case[-2:]
        names = case[1:-2]
        # threads that register handlers do so for different classes
        ops = [self.again.get(n, self.ops[n]) if n in names[:i] else self.ops[n] for i, n in enumerate(names)]
        n = self.length[names[0]] if kind != "fine" else self.fine[names[0]]
        points = range(part, n, parts)
        if kind in ("one", "fine"):
            for k in points:
                handlers.unregister(Kept)
                self.judge(names, sched.one_switch(*ops, k, opcodes=kind == "fine"), (k,))
            return
        m = self.length[names[1]]
        for k in points:
            for j in range(m):
                run = sched.two_switches(*ops, k, j) if kind == "two" else sched.nested(*ops, k, j)
                self.judge(names, run, (k, j))

    def judge(self, names, threads, at):
        if threads is None:
            return
        self.schedules += 1
        self.step(len(threads))
        self.state((names, [t.place for t in threads]))
        for name, t in zip(names, threads):
            if t.result != self.alone[name]:
                raise Violation(
                    f"{name} gives {str(t.result)[:400]}\n  alone {str(self.alone[name])[:400]}\n"
                    f"  with {names} switching at {at} {[x.place for x in threads]}"
                )


CHECK = C20
