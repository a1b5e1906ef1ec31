"""C35: the module functions and the Pickler and Unpickler objects agree."""

import decimal
import itertools
import json
import warnings

import jsonpickle
from jsonpickle import pickler, unpickler

from .. import zoo
from ..core import Check, Violation
from ..snap import first_difference, snap
from .c11 import ADDRESS

# in the documented order of the parameters
ENC = {
    "unpicklable": [True, False],
    "make_refs": [True, False],
    "keys": [False, True],
    "max_depth": [None, 0, 2],
    "reset": [True],
    "backend": [None, "json"],
    "warn": [False, True],
    "context": [None],
    "max_iter": [None, 1],
    "use_decimal": [False, True],
    "numeric_keys": [False, True],
    "use_base85": [False, True],
    "fail_safe": [None, "safe"],
    "indent": [None, 1],
    "separators": [None, (",", ":")],
    "include_properties": [False, True],
    "handle_readonly": [False, True],
    "handler_context": [None, "ctx"],
}
DEC = {
    "backend": [None, "json"],
    "context": [None],
    "keys": [False, True],
    "reset": [True],
    "safe": [True, False],
    "classes": [None, "classes"],
    "v1_decode": [False, True],
    "on_missing": ["ignore", "warn", "error", "function"],
    "handle_readonly": [False, True],
    "handler_context": [None, "ctx"],
}
CONTEXTS = {"none": None, "text": "ctx", "empty": "", "zero": 0, "false": False, "dict": {"a": [1]}, "nothing": {}, "list": []}
ONLY_CALL = {"reset", "context", "indent", "separators", "classes"}
FAMILY = {"core": ["unpicklable", "make_refs", "keys", "max_depth", "max_iter", "backend", "numeric_keys", "use_base85", "fail_safe", "indent"],
          "more": ["unpicklable", "make_refs", "keys", "warn", "use_decimal", "numeric_keys", "separators", "include_properties", "handle_readonly", "handler_context"]}


class Ctx(zoo.Handled):
    """Its handler writes the context it gets."""


class CtxHandler(jsonpickle.handlers.BaseHandler):
    def flatten(self, obj, data, handler_context=None):
        data["ctx"] = handler_context
        return data

    def restore(self, data, handler_context=None):
        return [data["ctx"], handler_context]


class Fails:
    def __getstate__(self):
        raise ValueError("no state")


class Prop:
    def __init__(self):
        self.x = 1

    @property
    def twice(self):
        return self.x * 2


class ReadOnly:
    @property
    def fixed(self):
        return 7


class Fixed(str):
    __slots__ = ()

    @property
    def size(self):
        return len(self)


class Gen:
    """Items that are produced one by one."""

    def __init__(self):
        self.n = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        if self.n > 3:
            raise StopIteration
        return self.n


def sample(opts):
    s = [1]
    p = zoo.Plain()
    p.a, p.b = s, {"d": [s, {"e": [2]}]}
    x = {"s": s, "p": p, "bytes": b"\xff\x00", "t": (s, p), "k": {1: s, None: 2, 2.5: [3]}, "flags": {True: s}, "ctx": Ctx(), "gen": Gen(), "fn": [lambda: 0]}
    if opts.get("use_decimal"):
        x["dec"] = decimal.Decimal("1.50")
    if opts.get("handle_readonly"):
        root = ReadOnly()
        root.__dict__.update(x, fixed=5)
        x = root
    if opts.get("fail_safe") and isinstance(x, dict):
        x["bad"] = Fails()
    if opts.get("include_properties"):
        x = {"prop": Prop(), "s": s, "b": b"\xff"}
    return x


DOCS = [
    '{"a": [1], "b": {"py/id": 1}, "c": {"json://1": {"py/id": 0}}}',
    '[{"py/object": "mc.zoo.Plain", "a": [1], "b": {"py/id": 2}}, {"py/object": "nowhere.Nothing", "x": {"py/b64": "QQ=="}}, {"py/id": 3}]',
    '[{"py/repr": "json/json.JSONDecoder"}, {"py/object": "mc.checks.c35.Ctx", "ctx": "stored"}, {"json://[1]": 2}]',
    '[{"a": [5]}, {"py/id": 1}, {"py/id": 2}, {"py/tuple": [{"py/object": "Short", "v": [1]}]}]',
    '{"json://{\\"py/tuple\\": [1, 2]}": [1], "x": {"py/object": "mc.zoo.Plain", "json://1": 5}}',
    '[{"py/repr": "nothing"}]',
    '[[1], {"py/object": "mc.checks.c35.Fixed", "py/newargs": {"py/tuple": ["abc"]}, "size": 3}, {"py/id": 1}]',
    '{"broken',
]


class Replacement:
    pass


def safe(e):
    return f"failed: {e}"


class C35(Check):
    id = "C35"
    technique = "exhaustive enumeration of option combinations, the functions compared with the objects and with every way of passing the options"
    rule = "every combination of the options of one family and every pair of options of different families, on a value that each option changes"

    @property
    def bounds(self):
        return {"encoder options": len(ENC), "decoder options": len(DEC), "documents": len(DOCS)}

    def setup(self):
        jsonpickle.handlers.register(Ctx, CtxHandler)
        self.missing = []
        self.backend = jsonpickle.backend.JSONBackend()
        self.backend.set_preferred_backend("json")
        self.backend.set_encoder_options("json", ensure_ascii=False, separators=(" , ", " : "))

    def cases(self):
        for family in FAMILY.values():
            for vs in itertools.product(*(range(len(ENC[n])) for n in family)):
                yield ("encode", tuple((n, v) for n, v in zip(family, vs) if v))
        for a, b in itertools.combinations(ENC, 2):
            for i in range(1, len(ENC[a])):
                for j in range(1, len(ENC[b])):
                    yield ("encode", ((a, i), (b, j)))
        for vs in itertools.product(*(range(len(v)) for v in DEC.values())):
            yield ("decode", tuple((n, v) for n, v in zip(DEC, vs) if v))
        for n in range(len(ENC) + 1):
            for how in (1, -1):
                yield ("positions", n, how)
        for n in range(len(DEC) + 1):
            for how in (1, -1):
                yield ("decpositions", n, how)
        for name, vs in ENC.items():
            for i in range(len(vs)):
                yield ("context", name, i)
        for first in CONTEXTS:
            for second in CONTEXTS:
                yield ("handler", first, second)
        yield ("names",)

    def run_case(self, case):
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            self.caught = caught
            getattr(self, "run_" + case[0])(*case[1:])

    def value(self, name, i, table=ENC):
        v = table[name][i]
        return {"json": self.backend, "safe": safe, "classes": {"nowhere.Nothing": Replacement, "Short": Replacement}, "function": self.miss}.get(v, v) \
            if isinstance(v, str) and v != "ctx" else v

    def miss(self, name):
        self.missing.append(name)

    def result(self, fn):
        """(text, error, warnings)"""
        del self.caught[:]
        try:
            return ADDRESS.sub("", fn()), None, [str(w.message)[:40] for w in self.caught]
        except Exception as e:  # noqa: BLE001
            return None, f"{type(e).__name__}: {ADDRESS.sub('', str(e))}", None

    def run_encode(self, spec):
        opts = {n: self.value(n, i) for n, i in spec}
        self.state(spec)
        own = {n: v for n, v in opts.items() if n not in ONLY_CALL}

        def by_object():
            x = sample(opts)
            p = jsonpickle.Pickler(**own, **({"original_object": x} if "handle_readonly" in own else {}))
            backend = opts.get("backend") or jsonpickle.json
            return backend.encode(p.flatten(x), indent=opts.get("indent"), separators=opts.get("separators"))

        def by_context():
            x = sample(opts)
            p = jsonpickle.Pickler(**own, **({"original_object": x} if "handle_readonly" in own else {}))
            return jsonpickle.encode(x, context=p, **{n: v for n, v in opts.items() if n in ("backend", "indent", "separators")})

        want = self.result(by_object)
        ways = {
            "encode": lambda: jsonpickle.encode(sample(opts), **opts),
            "dumps": lambda: jsonpickle.dumps(sample(opts), **opts),
            "all options": lambda: jsonpickle.encode(sample(opts), **{**{n: v[0] for n, v in ENC.items()}, **opts}),
            "positional": lambda: jsonpickle.encode(sample(opts), *[opts.get(n, v[0]) for n, v in ENC.items()]),
            "module": lambda: pickler.encode(sample(opts), **opts),
            "context": by_context,
        }
        for name, fn in ways.items():
            self.step()
            got = self.result(fn)
            if got != want:
                raise Violation(f"{name} with {opts} gives {got}\n  and a Pickler {want}")

    def outcome_of(self, fn):
        del self.caught[:]
        self.missing = []
        try:
            return snap(fn()), None, [str(w.message) for w in self.caught], list(self.missing)
        except BaseException as e:  # noqa: BLE001
            return None, f"{type(e).__name__}: {e}", None, list(self.missing)

    def run_decode(self, spec):
        opts = {n: self.value(n, i, DEC) for n, i in spec}
        own = {n: v for n, v in opts.items() if n not in ONLY_CALL}
        self.state(spec)
        for doc in DOCS:
            def by_object(doc=doc):
                u = jsonpickle.Unpickler(**own)
                return u.restore((opts.get("backend") or jsonpickle.json).decode(doc), classes=opts.get("classes"))

            def by_context(doc=doc):
                u = jsonpickle.Unpickler(**own)
                return jsonpickle.decode(doc, context=u, **{n: v for n, v in opts.items() if n in ("backend", "classes")})

            want = self.outcome_of(by_object)
            ways = {
                "decode": lambda doc=doc: jsonpickle.decode(doc, **opts),
                "loads": lambda doc=doc: jsonpickle.loads(doc, **opts),
                "all options": lambda doc=doc: jsonpickle.decode(doc, **{**{n: v[0] for n, v in DEC.items()}, **opts}),
                "positional": lambda doc=doc: jsonpickle.decode(doc, *[opts.get(n, v[0]) for n, v in DEC.items()]),
                "module": lambda doc=doc: unpickler.decode(doc, **opts),
                "context": by_context,
            }
            for name, fn in ways.items():
                self.step()
                got = self.outcome_of(fn)
                if got != want:
                    diff = first_difference(want[0], got[0]) if want[0] and got[0] else ""
                    raise Violation(f"{name} of {doc} with {opts} gives {got}\n  and an Unpickler {want}: {diff}")

    def run_positions(self, n, how):
        """The first n options by position, the others by name."""
        names = list(ENC)
        opts = {m: self.value(m, how % len(ENC[m])) for m in names}
        for skip in ("include_properties", "fail_safe", "use_decimal"):
            opts[skip] = ENC[skip][0]
        want = self.result(lambda: jsonpickle.encode(sample(opts), **opts))
        got = self.result(lambda: jsonpickle.encode(sample(opts), *[opts[m] for m in names[:n]], **{m: opts[m] for m in names[n:]}))
        self.step(2)
        self.state((n, how))
        if got != want:
            raise Violation(f"the first {n} options by position give {got}\n  instead of {want}")

    def run_decpositions(self, n, how):
        names = list(DEC)
        opts = {m: self.value(m, how % len(DEC[m]), DEC) for m in names}
        for doc in DOCS:
            want = self.outcome_of(lambda doc=doc: jsonpickle.decode(doc, **opts))
            got = self.outcome_of(lambda doc=doc: jsonpickle.decode(doc, *[opts[m] for m in names[:n]], **{m: opts[m] for m in names[n:]}))
            self.step(2)
            if got != want:
                raise Violation(f"the first {n} options by position give {got} for {doc}\n  instead of {want}")
        self.state((n, how))

    def run_context(self, name, i):
        """A given context counts, not the options next to it."""
        if name in ("context", "backend", "indent", "separators", "handler_context", "reset"):
            return
        own = {name: self.value(name, i)}
        want = self.result(lambda: jsonpickle.encode(sample(own), **own))
        self.state((name, i))
        for other, vs in ENC.items():
            if other in ("context", "backend", "indent", "separators", "handler_context", "reset"):
                continue
            for j in range(len(vs)):
                def fn(other=other, j=j):
                    x = sample(own)
                    p = jsonpickle.Pickler(**own, **({"original_object": x} if "handle_readonly" in own else {}))
                    return jsonpickle.encode(x, context=p, **{other: self.value(other, j)})

                got = self.result(fn)
                self.step()
                if got != want:
                    raise Violation(f"a Pickler with {own} as context next to {other}={vs[j]!r} gives {got}\n  instead of {want}")

    def run_handler(self, first, second):
        """The handler context of the call is the one that handlers get, an empty one too."""
        first, second = CONTEXTS[first], CONTEXTS[second]
        want = first if second is None else second
        self.state((str(first), str(second)))
        for name, fn in (("encode", jsonpickle.encode), ("dumps", jsonpickle.dumps)):
            text = fn([Ctx()], context=jsonpickle.Pickler(handler_context=first), handler_context=second, backend=jsonpickle.json)
            got = json.loads(text)[0].get("ctx")
            self.step()
            if got != want or type(got) is not type(want):
                raise Violation(f"{name} with a context for {first!r} and handler_context={second!r} gave {got!r} to the handler")
        for name, fn in (("decode", jsonpickle.decode), ("loads", jsonpickle.loads)):
            got = fn('[{"py/object": "mc.checks.c35.Ctx", "ctx": 1}]', context=jsonpickle.Unpickler(handler_context=first), handler_context=second)[0][1]
            self.step()
            if got != want or type(got) is not type(want):
                raise Violation(f"{name} with a context for {first!r} and handler_context={second!r} gave {got!r} to the handler")

    def run_names(self):
        """The functions of the module act on the default backend manager."""
        x = {"b": 1, "a": [2]}
        self.state("names")
        jsonpickle.set_preferred_backend("json")
        jsonpickle.set_encoder_options("json", indent=3)
        text = jsonpickle.encode(x)
        jsonpickle.set_encoder_options("json", ensure_ascii=False)
        plain = jsonpickle.encode(x)
        jsonpickle.set_decoder_options("json", parse_int=str)
        back = jsonpickle.decode(plain)
        jsonpickle.set_decoder_options("json")
        if text != json.dumps(x, indent=3) or plain != json.dumps(x) or back != {"b": "1", "a": ["2"]} or jsonpickle.decode(plain) != x:
            raise Violation(f"the options of the default backend give {text}, {plain}, {back}")
        if jsonpickle.load_backend("json") is not True or jsonpickle.load_backend("no_such_module_at_all", "a", "b", ValueError) is not False:
            raise Violation("load_backend of the module does not report what was loaded")
        jsonpickle.enable_fallthrough(False)
        jsonpickle.enable_fallthrough(True)
        self.step(8)


CHECK = C35
