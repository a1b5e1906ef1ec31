"""The engine against brute force: nothing is left out of the graphs, nothing occurs twice."""

import itertools

from . import graphs, snap


def brute_force(kinds, nodes, leaves, arities):
    """All tables of up to `nodes` nodes whose nodes are all reached from the first, up to numbering."""
    found = set()
    for n in range(1, nodes + 1):
        targets = [("n", i) for i in range(n)] + [("v", i) for i in leaves]
        rows = [(k, cs) for k in kinds for a in arities[k] for cs in itertools.product(targets, repeat=a)]
        for table in itertools.product(rows, repeat=n):
            numbers = {}

            def walk(t):
                if t[0] == "v":
                    return t
                if t[1] in numbers:
                    return ("r", numbers[t[1]])
                numbers[t[1]] = len(numbers)
                kind, cs = table[t[1]]
                return (kind, tuple(walk(c) for c in cs))

            term = walk(("n", 0))
            if len(numbers) == n:
                found.add(term)
    return found


def run():
    total = 0
    for kinds, nodes, leaves, arities in [
        (["list", "plain"], 3, (0,), {"list": (0, 1, 2), "plain": (0, 1)}),
        (["list", "dict"], 2, (0, 1), {"list": (0, 1, 2, 3), "dict": (0, 1, 2)}),
        (["list"], 4, (), {"list": (0, 1, 2)}),
    ]:
        listed = list(graphs.terms(kinds, nodes, leaves, arities))
        expected = brute_force(kinds, nodes, leaves, arities)
        assert len(listed) == len(set(listed)), "a graph is listed twice"
        assert set(listed) == expected, "a graph is missing"
        snaps = {snap.snap(graphs.build(t, [1, "x"])) for t in listed}
        assert len(snaps) == len(listed), "two graphs have the same snapshot"
        total += len(listed)
    return total
