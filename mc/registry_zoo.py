"""The class hierarchy of the handler registry check."""

import abc

from jsonpickle import handlers


class A:
    pass


class B(A):
    pass


class C(B):
    pass


class X:
    pass


class D(X, B):
    class Inner(A):
        pass


class Q(abc.ABC):
    @abc.abstractmethod
    def q(self):
        pass


@Q.register
class V(A):
    pass


class M(dict):
    pass


class L(M, X):
    pass


def handler(name):
    class H(handlers.BaseHandler):
        def flatten(self, obj, data):
            data["by"] = name
            data["x"] = self.context.flatten(obj.__dict__.get("x"), reset=False)
            return data

        def restore(self, data):
            o = Restored()
            o.by = name
            o.cls = data["py/object"]
            o.x = self.context.restore(data["x"], reset=False)
            return o

    H.name = name
    H.__name__ = H.__qualname__ = name
    return H


class Restored:
    pass


H1, H2, H3 = handler("H1"), handler("H2"), handler("H3")
I3 = H3(None)
CLASSES = {"A": A, "B": B, "C": C, "X": X, "D": D, "In": D.Inner, "Q": Q, "V": V, "M": M, "L": L}
