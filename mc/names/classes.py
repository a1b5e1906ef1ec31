class A:
    class B:
        class C:
            class D:
                class E:
                    class F:
                        @staticmethod
                        def function():
                            pass


class Élan:  # noqa: PLC2401
    class 名前:  # noqa: PLC2401
        pass


class _Private:
    class __Inner:
        pass

    class _Inner:
        pass

    inner = __Inner


class With_Underscores__:
    pass


class builtins:
    class int:
        pass


class int:  # noqa: A001
    pass


def len():  # noqa: A001
    pass


def __dunder__():
    pass


def ünïcode():  # noqa: PLC2401
    pass
