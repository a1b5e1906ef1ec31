"""C04: the pickle hooks are honoured as pickle does."""

import itertools
import pickle

import jsonpickle

from .. import hooks, rt
from ..core import Check, Skip, Violation
from ..snap import first_difference, snap

OPTS = ({}, {"keys": True})


def place(pos, o, s, make):
    return [o, [o, s], {"k": (s, o), "o": [make(), s]}][pos]


class C04(Check):
    id = "C04"
    technique = "exhaustive enumeration of hook combinations, differential against the standard pickle module"
    rule = (
        "every combination of hooks, argument, state and item shapes, each in five graph positions; "
        "the expected object is what pickle protocol 2 restores; a state is a distinct text"
    )
    bounds = {
        "reduce": "reduce/reduce_ex/both x class/function/newobj/classmethod x 5 argument tuples x 22 states x "
        "setstate x list items x dict items x 3 state setters",
        "state": "22 getstate results x setstate x 7 newargs forms x 3 layouts",
    }

    def cases(self):
        states = ["absent", *hooks.STATES]
        args = list(hooks.ARGS)
        for how in ("reduce", "reduce_ex", "both"):
            for f in ("class", "func", "newobj", "static"):
                for st in states:
                    for setst in (0, 1):
                        for items in ("none", "two", "zero"):
                            for dit in ("none", "two", "zero"):
                                for set_ in ("none", "setter", "list"):
                                    full = self.thorough or how == "reduce"
                                    for a in args if full else ("2",):
                                        yield ("r", (how, f, a, st, setst, items, dit, set_))
        new = ["", *[f"args:{a}" for a in args], *[f"ex:{a}" for a in args]]
        for st in states:
            for setst in (0, 1):
                for n in new:
                    for slots in ("dict", "slots", "mixed"):
                        for attrs in range(4):
                            yield ("s", (st, setst, n, slots), attrs)

    def run_case(self, case):
        if case[0] == "r":
            cls = hooks.reduce_class(case[1])
            plain = False
            make = lambda: object.__new__(cls)  # noqa: E731
            st, setst, set_ = case[1][3], case[1][4], case[1][7]
            if st in hooks.FALSY and st != "none" and (setst or set_ != "none"):
                raise Skip  # the exception the property states
        else:
            cls = hooks.state_class(case[1])
            st, setst, n, slots = case[1]

            def make(new=False):
                o = object.__new__(cls)
                if new and n.startswith("args:"):
                    o = cls.__new__(cls, *o.__getnewargs__())
                elif new and n.startswith("ex:"):
                    a, k = o.__getnewargs_ex__()
                    o = cls.__new__(cls, *a, **k)
                if case[2] & 1:
                    o.a = 1
                if case[2] & 2:
                    o.b = hooks.SHARED[0]
                if case[2] == 3 and slots == "mixed":
                    o.m = [3]
                return o

            # no state hook result: the attributes are kept as they are
            plain = st in hooks.FALSY or st == "absent"

        for pos in range(3):
            s = [7]
            hooks.SHARED[0] = s
            o = make()
            x = place(pos, o, s, make)
            try:
                if plain:
                    m = make(True)
                    expected = place(pos, m, s, lambda: make(True))
                else:
                    expected = pickle.loads(pickle.dumps(x, 2))
            except Exception:  # noqa: BLE001
                raise Skip from None  # pickle does not define an answer
            want = snap(expected)
            for opts in OPTS:
                text, back = rt.roundtrip(self, x, opts)
                self.state(text)
                got = snap(back)
                if got != want:
                    raise Violation(f"{first_difference(want, got)}\n  text {text[:500]}")


CHECK = C04
