"""Import of the code under test, always compiled from its current source.

No byte code of /repo is read or written (a cached file may be stale if the
source changed within the resolution of its time stamp).
"""
import importlib.machinery
import os
import sys
import warnings

REPO = os.path.realpath(os.environ.get('VF_REPO', '/repo'))

_path_stats = importlib.machinery.SourceFileLoader.path_stats


def _no_cache(self, path):
    if os.path.realpath(path).startswith(REPO + os.sep):
        raise OSError('the byte code cache is not used for ' + path)
    return _path_stats(self, path)


importlib.machinery.SourceFileLoader.path_stats = _no_cache
sys.path.insert(0, REPO)

warnings.simplefilter('ignore')
import numpy as np  # noqa
import pygfunction as gt  # noqa
import ghedt as dt  # noqa
import ghedt.peak_load_analysis_tool as plat  # noqa

if not os.path.realpath(dt.__file__).startswith(REPO + os.sep):
    raise ImportError('ghedt was not imported from ' + REPO)


def modules():
    """All modules of the package under test that are loaded."""
    return [m for n, m in sorted(sys.modules.items())
            if (n == 'ghedt' or n.startswith('ghedt.')) and m is not None]


class Patch:
    """Replace an object under every name of the package under test.

    Every module level binding to the very object is replaced, so that the
    stand-in is reached no matter how the callers import it.
    """
    def __init__(self, *pairs):
        self.pairs = pairs
        self.undo = []

    def __enter__(self):
        for mod in modules():
            for name, value in list(vars(mod).items()):
                for old, new in self.pairs:
                    if value is old:
                        self.undo.append((mod, name, value))
                        setattr(mod, name, new)
        return self

    def __exit__(self, *exc):
        for mod, name, value in reversed(self.undo):
            setattr(mod, name, value)
        self.undo = []
        return False
