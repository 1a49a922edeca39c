"""Process environment: single-threaded BLAS, import paths, Hypothesis loader.

The code under test runs under the project's own interpreter (/opt/venv), which
has no Hypothesis.  Hypothesis and its one dependency are taken from the tooling
venv by a finder limited to those names, so no other package of that venv can
shadow (or be found instead of) what the project really uses.
"""
import os
import sys

for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOL_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


class _ToolFinder:
    names = ("hypothesis", "sortedcontainers", "_hypothesis_globals",
             "_hypothesis_ftz_detector")

    @classmethod
    def find_spec(cls, fullname, path=None, target=None):
        if path is not None or fullname.partition(".")[0] not in cls.names:
            return None
        from importlib.machinery import PathFinder
        return PathFinder.find_spec(fullname, [TOOL_SITE])


def setup():
    if _ToolFinder not in sys.meta_path:
        sys.meta_path.append(_ToolFinder)
    # /repo's working tree comes first, whatever the editable install says
    if sys.path[:1] != [REPO]:
        sys.path.insert(0, REPO)
    import logging
    import warnings
    warnings.filterwarnings("ignore")
    logging.getLogger().addHandler(logging.NullHandler())
    logging.getLogger().setLevel(logging.CRITICAL)
    logging.disable(logging.ERROR)
    import robuststats
    got = os.path.realpath(robuststats.__file__)
    if not got.startswith(os.path.realpath(REPO) + os.sep):
        raise ImportError("robuststats imported from %s, not %s" % (got, REPO))
