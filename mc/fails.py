"""Classes whose hooks fail, importable as mc.fails.<name>."""

from jsonpickle import handlers


class Boom(Exception):
    pass


class Fault:
    exc = Boom
    raised = []  # every exception that was raised, in order


def fail():
    e = Fault.exc("boom")
    Fault.raised.append(e)
    raise e


class F:
    def parts(self):
        return [self.__dict__[n] for n in "ab" if n in self.__dict__]


class GetState(F):
    def __getstate__(self):
        fail()


class Reduce(F):
    def __reduce__(self):
        fail()


class ReduceEx(F):
    def __reduce_ex__(self, protocol):
        fail()


class NewArgs(F):
    def __getnewargs__(self):
        fail()


class NewArgsEx(F):
    def __getnewargs_ex__(self):
        fail()


class InitArgs(F):
    def __getinitargs__(self):
        fail()


class Handled(F):
    pass


class Late(F):
    pass


class Items(F):
    """Fails after its items were stored."""

    def __reduce__(self):
        return (Items, (), None, self.items())

    def items(self):
        yield from self.parts()
        fail()


class Args(F):
    """Fails after its arguments, state and items were stored."""

    def __reduce__(self):
        return (Args, (self.parts(), [1]), {"s": self.parts()}, iter([2]), self.items())

    def items(self):
        for i, x in enumerate(self.parts()):
            yield i, x
        fail()


class Iterator(F):
    done = 0

    def __iter__(self):
        self.done = 0
        return self

    def __next__(self):
        self.done += 1
        if self.done > len(self.parts()):
            fail()
        return self.parts()[self.done - 1]


class List(list):
    def __iter__(self):
        yield from list.__iter__(self)
        fail()


class BadKey:
    def __repr__(self):
        fail()

    def __str__(self):
        fail()


class WithProperty(F):
    @property
    def p(self):
        fail()


class HandledHandler(handlers.BaseHandler):
    def flatten(self, obj, data):
        fail()


class LateHandler(handlers.BaseHandler):
    def flatten(self, obj, data):
        data["parts"] = [self.context.flatten(x, reset=False) for x in obj.parts()]
        fail()


handlers.register(Handled, HandledHandler)
handlers.register(Late, LateHandler)


def attrs(o, cs):
    for n, c in zip("ab", cs):
        o.__dict__[n] = c


def bad_dict(o, cs):
    for n, c in zip("ab", cs):
        o[n] = c
    o[BadKey()] = 1


CLASSES = {
    c.__name__: (c, attrs)
    for c in (GetState, Reduce, ReduceEx, NewArgs, NewArgsEx, InitArgs, Handled, Late, Items, Args, Iterator)
}
CLASSES["List"] = (List, lambda o, cs: o.extend(cs))
CLASSES["Dict"] = (dict, bad_dict)
