"""C25: encoded and decoded objects are not kept alive."""

import enum
import gc
import itertools
import sys
import types
import weakref

import jsonpickle
from jsonpickle import Pickler, Unpickler

from .. import graphs, rt, ticks, values, zoo
from ..core import Check, Violation
from .c13 import HOOKED, KINDS, Custom

ENC = [
    {},
    {"keys": True},
    {"unpicklable": False},
    {"make_refs": False},
    {"unpicklable": False, "make_refs": False},
    {"max_depth": 1},
    {"max_depth": 2, "unpicklable": False},
    {"max_iter": 1},
    {"numeric_keys": True},
    {"use_base85": True, "indent": 1},
    {"fail_safe": repr},
    {"include_properties": True},
    {"handle_readonly": True},
    {"warn": True},
    {"keys": True, "make_refs": False, "fail_safe": repr},
]
DEC = [{}, {"keys": True}, {"safe": False}, {"v1_decode": True}, {"on_missing": "ignore"}, {"handle_readonly": True}, {"reset": True}]
KEYS = ["plain", "tuple", "frozenset", "tagged", "ident", "int"]
OPS = ["encode", "decode", "pickler", "fail_encode", "fail_decode", "context", "keys", "handler"]


class Token:
    """A leaf that can be watched."""


def watch(root):
    """Weak references to all instances of our own classes in a graph."""
    seen, todo, out = {}, [root], []
    while todo:
        x = todo.pop()
        if id(x) in seen or isinstance(x, (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType, enum.Enum)):
            continue
        seen[id(x)] = x
        if type(x).__module__.startswith("mc.") and type(x).__flags__:
            try:
                out.append(weakref.ref(x))
            except TypeError:
                pass
        todo += gc.get_referents(x)
    return out


def alive(refs, collect=True):
    if collect:
        gc.collect()
    return [type(r()).__name__ for r in refs if r() is not None]


def counts(objs):
    gc.collect()
    return [sys.getrefcount(o) for o in objs]


def nodes(root):
    seen, todo, out = set(), [root], []
    while todo:
        x = todo.pop()
        if id(x) in seen or isinstance(x, (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType, enum.Enum)):
            continue
        seen.add(id(x))
        out.append(x)
        if isinstance(x, (list, tuple, set, frozenset)):
            todo += list(x)
        elif isinstance(x, dict):
            todo += list(x.values()) + list(x)
        if len(out) > 60:
            break
    return out


class C25(Check):
    id = "C25"
    technique = "exhaustive enumeration of calls with weak references, reference counts and the collector's object count as monitors"
    rule = "every graph, value, option set, argument and failing point within the bound; no object may outlive the call"

    @property
    def bounds(self):
        return {"objects": 3, "encoder options": len(ENC), "decoder options": len(DEC), "values": len(values.V), "history length": 3}

    def setup(self):
        gc.disable()
        self.points = 0
        for _ in range(3):
            for name in values.V:
                try:
                    jsonpickle.decode(jsonpickle.encode(values.make(name), keys=True), keys=True)
                except Exception:  # noqa: BLE001, S110
                    pass
        gc.collect()
        gc.freeze()

    def extra_coverage(self):
        return {"fault_points": self.points}

    def cases(self):
        kinds = ["list", "dict", "tuple", "plain", "slots", "list_sub", "dict_sub", "set_sub", "ddict", "odict", "deque", "error", "getset", "reduced",
                 "reduce_state", "newargs", "newargs_ex", "handled", "data", "frozen"]
        for t in graphs.terms(kinds, 2, [0], rt.arities(2)):
            yield ("graph", t)
        for t in graphs.terms(["list", "dict", "plain", "handled"], 3, [], {"list": (1, 2), "dict": (1,), "plain": (1, 2), "handled": (2,)}):
            yield ("graph", t)
        for name in values.V:
            yield ("value", name)
        for h in HOOKED:
            for t in graphs.terms(["list", "dict", "plain", h], 2, [0], {"list": (1, 2), "dict": (1,), "plain": (1, 2), h: KINDS[h].arities}):
                if "'t_" in str(t):
                    yield ("fault", t)
        for k in KEYS:
            for o in range(len(ENC)):
                yield ("key", k, o)
        for o in range(len(ENC)):
            yield ("args", o)
        for o in range(len(DEC)):
            yield ("decargs", o)
        for h in itertools.product(OPS, repeat=4 if self.thorough else 3):
            yield ("history", h)

    def run_case(self, case):
        getattr(self, "run_" + case[0])(*case[1:])

    def check(self, refs, where, cyclic=True):
        # what is not part of a cycle goes away without the collector
        left = alive(refs, cyclic)
        if left:
            raise Violation(f"still alive after {where}: {left}")

    def unchanged(self, objs, before, where):
        after = counts(objs)
        if after != before:
            bad = [(type(o).__name__, a, b) for o, a, b in zip(objs, before, after) if a != b]
            raise Violation(f"reference counts changed by {where}: {bad}")

    def encode(self, value, opts):
        try:
            return jsonpickle.encode(value, **opts)
        except (TypeError, ValueError, RecursionError):
            # not writable with these options; the failed call must not leak either
            return None

    def run_graph(self, t):
        value = graphs.build(t, [lambda: Token()])
        objs = nodes(value)
        for opts in ENC:
            if "include_properties" in opts:
                continue
            before = counts(objs)
            text = self.encode(value, opts)
            self.step()
            self.unchanged(objs, before, f"encode with {opts}: {text}")
            p = Pickler(**{k: v for k, v in opts.items() if k != "indent"})
            for _ in range(2):
                try:
                    p.flatten(value)
                except (TypeError, ValueError, RecursionError):
                    break
                self.step()
                self.unchanged(objs, before, f"flatten of a pickler with {opts}")
        p = Pickler(keys=True)
        before = counts(objs)
        jsonpickle.encode(value, context=p, keys=True)
        self.step(2)
        self.unchanged(objs, before, "encode with a given context")
        text = jsonpickle.encode(value, keys=True)
        self.state(text)
        refs = watch(value)
        del value, objs
        self.check(refs, f"encode: {text}", graphs.is_cyclic(t))
        for opts in DEC:
            try:
                back = jsonpickle.decode(text, **opts)
            except Exception:  # noqa: BLE001
                continue
            refs = watch(back)
            self.step()
            del back
            self.check(refs, f"decode with {opts}: {text}", "v1_decode" in opts or graphs.is_cyclic(t))

    def run_value(self, name):
        for opts in ENC:
            if "include_properties" in opts:
                continue
            value = values.make(name)
            objs = [value]
            before = counts(objs)
            text = self.encode(value, opts)
            self.step()
            self.unchanged(objs, before, f"encode with {opts}: {text}")
            p = Pickler(**{k: v for k, v in opts.items() if k != "indent"})
            objs.append([value])
            before = counts(objs)
            for i in (0, 1):
                try:
                    p.flatten(objs[i])
                except (TypeError, ValueError, RecursionError):
                    break
                self.step()
                self.unchanged(objs, before, f"flatten of a pickler with {opts}")
            refs = watch(value)
            del value, objs
            self.check(refs, f"encode with {opts}: {text}", text is None)
            if text is None:
                continue
            self.state(text)
            for dec in ({}, {"keys": True}):
                sizes = []
                for _ in range(5):
                    try:
                        back = jsonpickle.decode(text, **dec)
                    except Exception:  # noqa: BLE001
                        break
                    refs = watch(back)
                    self.step()
                    del back
                    self.check(refs, f"decode of {text}", False)
                    gc.collect()
                    sizes.append(len(gc.get_objects()))
                # the list of sizes does not count itself: it is there all along
                if len(sizes) == 5 and sizes[-1] - sizes[2] >= 2:
                    raise Violation(f"each decode leaves objects behind, {sizes}: {text}")

    def run_fault(self, t):
        for opts in ({}, {"keys": True}, {"unpicklable": False}, {"make_refs": False}):
            k = 0
            while True:
                k += 1
                value = graphs.build(t, [lambda: Token()])
                refs = watch(value)
                _, err, names = ticks.run(lambda: jsonpickle.encode(value, **opts), k, Custom)  # noqa: B023
                self.step()
                failed = err is not None
                del value, err
                ticks.Ticks.raised = None
                self.points += 1
                self.check(refs, f"encode that fails at {k} with {opts}")
                if not failed:
                    break
            if opts.get("unpicklable") is False:
                continue
            value = graphs.build(t, [lambda: Token()])
            text = jsonpickle.encode(value, **opts)
            del value
            self.state(text)
            k = 0
            while True:
                k += 1
                watched = []
                ctx = Token()
                watched.append(weakref.ref(ctx))
                try:
                    back, err, names = ticks.run(lambda: jsonpickle.decode(text, keys="keys" in opts, handler_context=ctx), k, Custom)  # noqa: B023
                except Exception:  # noqa: BLE001
                    break
                self.step()
                failed = err is not None
                if back is not None:
                    watched += watch(back)
                del back, err, ctx
                ticks.Ticks.raised = None
                self.points += 1
                self.check(watched, f"decode that fails at {k}: {text}")
                if not failed:
                    break

    def run_key(self, k, o):
        opts = ENC[o]
        key = {"plain": Token, "tuple": lambda: (Token(), 1), "frozenset": lambda: frozenset([Token()]), "tagged": lambda: zoo.Tagged(3),
               "ident": zoo.Ident, "int": lambda: 10**30 + 7}[k]()
        value = {key: [1], "x": {"y": {key: Token()}}}
        objs = nodes(value)
        before = counts(objs)
        text = self.encode(value, opts)
        self.step()
        self.unchanged(objs, before, f"encode with {opts}")
        refs = watch(value)
        del value, key, objs
        self.check(refs, f"encode with {opts}")
        if text:
            self.state(text)
            for dec in DEC:
                try:
                    back = jsonpickle.decode(text, **dec)
                except Exception:  # noqa: BLE001
                    continue
                refs = watch(back)
                del back
                self.check(refs, f"decode with {dec}: {text}")

    def run_args(self, o):
        """Everything that is passed to encode besides the value."""
        opts = dict(ENC[o])
        for what in ("handler_context", "fail_safe", "separators", "backend", "context"):
            value = [zoo.Plain(), zoo.Handled(), [lambda: 0], {"k": zoo.Plain()}]
            arg = Token()
            refs = watch(value) + [weakref.ref(arg)]
            extra = {}
            if what == "handler_context":
                extra = {"handler_context": arg}
            elif what == "fail_safe":
                extra = {"fail_safe": lambda e, arg=arg: repr(arg)}
                refs.append(weakref.ref(extra["fail_safe"]))
            elif what == "backend":
                backend = jsonpickle.backend.JSONBackend()
                extra = {"backend": backend}
                refs.append(weakref.ref(backend))
                del backend
            elif what == "context":
                p = Pickler(**{k: v for k, v in opts.items() if k not in ("indent",)})
                extra = {"context": p}
                refs.append(weakref.ref(p))
                del p
            if opts.get("include_properties"):
                value = [zoo.Plain()]
            self.encode(value, {**opts, **extra})
            self.step()
            del value, arg, extra
            self.check(refs, f"encode with {opts} and {what}")
            self.state((o, what))

    def run_decargs(self, o):
        opts = DEC[o]
        p = zoo.Plain()
        p.me, p.h = p, zoo.Handled()
        texts = [jsonpickle.encode([p, {"k": p}, (p,)]), '{"py/object": "nowhere.Nothing", "a": [{"py/object": "mc.zoo.Plain"}]}', '{"broken', '{"py/reduce": 5}',
                 '[{"py/object": "mc.zoo.Plain"}, {"py/object": 5}]']
        for text in texts:
            for what in ("handler_context", "on_missing", "classes", "classes_list", "backend", "context"):
                arg = Token()
                refs = [weakref.ref(arg)]
                extra = {}
                if what == "handler_context":
                    extra = {"handler_context": arg}
                elif what == "on_missing":
                    extra = {"on_missing": lambda name, arg=arg: arg}
                    refs.append(weakref.ref(extra["on_missing"]))
                elif what == "classes":
                    cls = type("Nothing", (), {})
                    extra = {"classes": {"nowhere.Nothing": cls}}
                    refs.append(weakref.ref(cls))
                    del cls
                elif what == "classes_list":
                    cls = type("Other", (), {})
                    extra = {"classes": [cls]}
                    refs.append(weakref.ref(cls))
                    del cls
                elif what == "backend":
                    extra = {"backend": jsonpickle.backend.JSONBackend()}
                    refs.append(weakref.ref(extra["backend"]))
                else:
                    extra = {"context": Unpickler()}
                    refs.append(weakref.ref(extra["context"]))
                back = None
                try:
                    back = jsonpickle.decode(text, **{**opts, **extra})
                except BaseException:  # noqa: BLE001, S110
                    pass
                self.step()
                refs += watch(back)
                del back, arg, extra
                self.check(refs, f"decode with {opts} and {what}: {text}")
                self.state((o, what, text))

    def run_history(self, h):
        """Several calls in a row, with a pickler that lives on."""
        p = Pickler(keys=True)
        refs = []
        for op in h:
            refs += self.op(op, p)
            self.step()
        self.state(h)
        self.check(refs, f"the calls {h}")

    def op(self, op, p):
        x = zoo.Plain()
        x.me, x.h, x.t, x.d = x, zoo.Handled(), (Token(), [Token()]), {"a": Token()}
        x.h.a, x.h.b = Token(), x
        refs = watch(x)
        if op == "encode":
            jsonpickle.encode(x)
            jsonpickle.encode([x, x], unpicklable=False)
        elif op == "pickler":
            p.flatten([x, {x: x}])
        elif op == "context":
            jsonpickle.encode([x, {x: x}], context=p)
        elif op == "keys":
            jsonpickle.encode({x: x, (1, x): [x]}, keys=True)
        elif op == "handler":
            jsonpickle.encode([x.h, x], handler_context=x)
        elif op == "fail_encode":
            x.bad = ticks.GetSet.__new__(ticks.GetSet)
            x.bad.a = x.bad.b = x
            ticks.run(lambda: jsonpickle.encode([x, x.bad]), 1, Custom)
            ticks.Ticks.raised = None
        else:
            del x.h  # it cannot be rebuilt as part of a cycle
            text = jsonpickle.encode([x, x])
            if op == "decode":
                refs += watch(jsonpickle.decode(text, handler_context=x))
            else:
                try:
                    jsonpickle.decode(text[:-1] + ', {"py/object": 5}]', handler_context=x)
                except Exception:  # noqa: BLE001, S110
                    pass
        return refs


CHECK = C25
