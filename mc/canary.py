"""What a document may name; calling hit() shows that something was evaluated."""

HITS = []


def hit(*args):
    HITS.append(args)
    return 42


class Thing:
    value = [1]

    @staticmethod
    def run():
        return hit("run")

    def __class_getitem__(cls, item):
        return hit("item", item)


table = {"k": 1}
