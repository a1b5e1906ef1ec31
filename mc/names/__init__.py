"""Importable things whose names are easily mixed up (C28)."""

from . import classes, same, shadowed  # noqa: F401
from .deep.deeper.deepest.bottom import last  # noqa: F401

hidden_module = shadowed


class shadowed:  # noqa: F811, N801 (takes the name of the module within the package)
    class Thing:
        """Has the same name as a class of the module."""

    def function(self):
        pass
