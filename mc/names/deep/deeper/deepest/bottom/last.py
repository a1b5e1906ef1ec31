class Last:
    class Inner:
        pass


def function():
    pass
