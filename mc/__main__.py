import importlib
import os
import sys

from . import core


def registry(prop):
    return importlib.import_module(f"mc.checks.{prop.lower()}").CHECK


def main():
    import jsonpickle

    repo = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
    where = os.path.realpath(jsonpickle.__file__)
    if not where.startswith(repo + os.sep):
        print(f"jsonpickle was imported from {where}, not {repo}", file=sys.stderr)
        return 2
    if sys.argv[1] == "--selftest":
        # setup: the harness and everything it needs can be imported, and the engine is sound
        import numpy
        import pandas

        checks = os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks")
        names = sorted(n[:-3] for n in os.listdir(checks) if n.startswith("c"))
        for n in names:
            registry(n)
        from . import selftest

        print(f"{selftest.run()} graphs agree with brute force")
        print(f"{len(names)} checks, numpy {numpy.__version__}, pandas {pandas.__version__}")
        return 0
    if sys.argv[1] == "replay":
        return core.replay(sys.argv[2], registry)
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    return core.run(registry(sys.argv[1]), tier)


if __name__ == "__main__":
    sys.exit(main())
