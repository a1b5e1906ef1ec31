import importlib
import os

_be = importlib._bootstrap_external
_cache_from_source = _be.cache_from_source
_repo = os.path.realpath(os.environ.get("VERIF_REPO", "/repo")) + os.sep


def _no_cache_for_repo(path, *args, **kwargs):
    # /repo is always compiled from its current source text, never from bytecode
    if os.path.realpath(path).startswith(_repo):
        raise NotImplementedError
    return _cache_from_source(path, *args, **kwargs)


_be.cache_from_source = _no_cache_for_repo
