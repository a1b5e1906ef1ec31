class Thing:
    pass


def function():
    pass
