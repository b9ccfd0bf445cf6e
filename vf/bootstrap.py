"""Process set-up shared by every check.

* Hypothesis (and its two pure dependencies) comes from the pre-installed tool venv; nothing else of that venv is
  visible, so the code under test runs with the numpy/scipy/matplotlib of /opt/venv it was built for.
* active_subspaces is imported from /repo's working tree.  /opt/venv's py2compat import hook translates the sources
  in memory at import time, which *is* the rebuild: nothing is cached or written.
"""
import importlib.machinery
import os
import sys
import warnings

REPO = "/repo"
TOOLSITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
_TOOL_TOPS = {"hypothesis", "attr", "attrs", "sortedcontainers", "_hypothesis_globals",
              "_hypothesis_ftz_detector", "_hypothesis_pytestplugin"}


class _ToolFinder(object):
    @staticmethod
    def find_spec(name, path=None, target=None):
        if path is None and name in _TOOL_TOPS:
            return importlib.machinery.PathFinder.find_spec(name, [TOOLSITE])
        return None


def setup():
    os.environ["MPLBACKEND"] = "agg"
    for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ.setdefault(v, "1")
    sys.dont_write_bytecode = True
    try:
        import hypothesis  # noqa
    except ImportError:
        sys.meta_path.append(_ToolFinder)
        import hypothesis  # noqa
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")


def load():
    """Import the code under test; returns the package."""
    import active_subspaces
    where = os.path.realpath(active_subspaces.__file__)
    if not where.startswith(REPO + "/"):
        raise RuntimeError("active_subspaces imported from " + where)
    return active_subspaces
