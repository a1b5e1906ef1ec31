class same:  # noqa: N801
    class same:  # noqa: N801
        class same:  # noqa: N801
            @staticmethod
            def function():
                pass


def function():
    pass
