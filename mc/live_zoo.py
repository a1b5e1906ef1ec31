"""Classes whose hooks hand out the very objects they hold, importable as mc.live_zoo.<name>."""

import sys

HERE = sys.modules[__name__]
EXCLUDES = {
    "none": None,
    "list": ["a", "gone"],
    "tuple": ("b",),
    "set": {"a", "items"},
}


def _setstate(self, state):
    self.got = state


HOOKS = {
    "dict": {"__getstate__": lambda s: s.__dict__},
    "inner": {"__getstate__": lambda s: s.inner},
    "items": {"__getstate__": lambda s: s.items},
    "slots": {"__getstate__": lambda s: (None, s.inner)},
    "both": {"__getstate__": lambda s: (s.__dict__, s.inner)},
    "reduce_args": {"__reduce__": lambda s: (type(s), s.args)},
    "reduce_state": {"__reduce__": lambda s: (type(s), (), s.__dict__)},
    "reduce_inner": {"__reduce__": lambda s: (type(s), (), s.inner)},
    "reduce_items": {"__reduce__": lambda s: (type(s), (), None, s.items)},
    "reduce_pairs": {"__reduce__": lambda s: (type(s), (), None, None, s.pairs)},
    "reduce_whole": {"__reduce__": lambda s: s.whole},
    "reduce_ex": {"__reduce_ex__": lambda s, p: (type(s), s.args, s.inner, iter(s.items), iter(s.pairs))},
    "newargs": {"__getnewargs__": lambda s: s.args},
    "newargs_list": {"__getnewargs__": lambda s: s.items},
    "newargs_ex": {"__getnewargs_ex__": lambda s: (s.args, s.inner)},
    "initargs": {"__getinitargs__": lambda s: s.args},
}
for ex, names in EXCLUDES.items():
    for hook, body in HOOKS.items():
        for setter in (False, True):
            cls = type(f"L_{ex}_{hook}_{int(setter)}", (), {"__module__": __name__, **body})
            if names is not None:
                cls._jsonpickle_exclude = names
            if setter:
                cls.__setstate__ = _setstate
            setattr(HERE, cls.__name__, cls)


def make(ex, hook, setter, own):
    """An instance; with own its exclude list is in its attributes too."""
    x = object.__new__(getattr(HERE, f"L_{ex}_{hook}_{int(setter)}"))
    shared = [1]
    x.a = shared
    x.b = {"a": 1, "b": shared}
    x.inner = {"a": shared, "b": 2, "c": [3]}
    x.items = [shared, 4, {"a": 5}]
    x.pairs = [("a", shared), ("b", 6)]
    x.args = (shared, [7])
    x.whole = [type(x), (shared,), None, None, None]
    if own:
        x._jsonpickle_exclude = ["c", "b"]
    return x
