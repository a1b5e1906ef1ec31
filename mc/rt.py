"""Helpers shared by the round trip checks."""

import jsonpickle

from . import zoo
from .core import Violation
from .snap import first_difference, snap


def arities(limit):
    from .graphs import KINDS

    return {
        k: tuple(a for a in v.arities if a <= limit) or v.arities for k, v in KINDS.items()
    }


def dec_opts(opts):
    return {k: v for k, v in opts.items() if k in ("keys", "backend", "handle_readonly")}


def roundtrip(check, value, opts=None, **dec):
    opts = opts or {}
    text = jsonpickle.encode(value, **opts)
    if type(text) is not str:
        raise Violation(f"encode returned {type(text)}")
    check.step(2)
    return text, jsonpickle.decode(text, **dec_opts(opts), **dec)


def same(check, value, opts=None, ident=True, text_state=True, **snap_kw):
    """encode, decode, and require an isomorphic graph."""
    before = snap(value, identity=ident, **snap_kw)
    text, back = roundtrip(check, value, opts)
    if text_state:
        check.state(text)
    after = snap(back, identity=ident, **snap_kw)
    if before != after:
        raise Violation(
            f"{first_difference(before, after)}\n  options {opts}\n  text {text[:600]}"
        )
    return text, back


# Where a value can occur. Every context also carries a pair of references to
# one list after the value, so that a value that upsets the numbering of
# references is noticed.


def _attr(v):
    p = zoo.Plain()
    p.before = 1
    p.x = v()
    p.after = s = [9]
    p.again = s
    return p


def _slots(v):
    p = zoo.Slots()
    p.a = v()
    p.b = [0]
    return [p, p.b, p]


def _list(v):
    s = [9]
    return [0, v(), s, s]


def _shared(v):
    x, s = v(), [9]
    return [x, s, {"k": x}, s, x]


def _dict(v):
    s = [9]
    return {"a": 0, "x": v(), "s": s, "t": s}


def _tuple(v):
    s = [9]
    return (0, v(), s, s)


def _deep(v):
    s = [9]
    return {"a": [({"b": [v()]}, s)], "s": s}


def _listsub(v):
    s = [9]
    o = zoo.ListSub([0, v(), s])
    o.attr = s
    return [o, s, o]


def _dictsub(v):
    s = [9]
    o = zoo.DictSub(x=v(), s=s)
    o.attr = s
    return [o, s, o]


def _state(v):
    o = zoo.GetSet()
    o.a, o.b = v(), [9]
    return [o, o.b, o]


def _reduced(v):
    s = [9]
    return [zoo.rebuild(v(), s), s]


def _handled(v):
    s = [9]
    o = zoo.Handled()
    o.a, o.b = v(), s
    return [o, s, o]


CONTEXTS = {
    "bare": lambda v: v(),
    "list": _list,
    "shared": _shared,
    "dict": _dict,
    "tuple": _tuple,
    "attr": _attr,
    "slots": _slots,
    "deep": _deep,
    "listsub": _listsub,
    "dictsub": _dictsub,
    "state": _state,
    "reduced": _reduced,
    "handled": _handled,
}
# contexts in which None-valued entries / unstorable values would be left out
CORE = ("bare", "list", "shared", "dict", "tuple", "attr", "deep")
