"""Process set-up shared by all checks: environment, import paths, hypothesis."""

import os
import sys
import warnings
import importlib.abc
import importlib.machinery

REPO = os.environ.get("VF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
WHEELS = "/opt/veriftools/wheels"

for _k, _v in {
    "MPLBACKEND": "Agg",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "PYTHONDONTWRITEBYTECODE": "1",
    "RAY_USAGE_STATS_ENABLED": "0",
    "HYPOTHESIS_DO_NOT_TRACK": "1",
}.items():
    os.environ.setdefault(_k, _v)
os.environ.setdefault("MPLCONFIGDIR", "/tmp/vf-mpl")
# child processes of engines (spawned ones) must import the same tree
_pp = os.environ.get("PYTHONPATH", "")
if REPO not in _pp.split(os.pathsep):
    os.environ["PYTHONPATH"] = REPO + (os.pathsep + _pp if _pp else "")
sys.dont_write_bytecode = True

if sys.path[0] != REPO:
    sys.path.insert(0, REPO)


class _HypFinder(importlib.abc.MetaPathFinder):
    """Finds only hypothesis and its dependencies in the tools' site-packages,
    such that no other package there can shadow what foxes uses."""

    NAMES = (
        "hypothesis",
        "_hypothesis_globals",
        "_hypothesis_ftz_detector",
        "_hypothesis_pytestplugin",
        "sortedcontainers",
        "attr",
        "attrs",
    )

    def find_spec(self, name, path=None, target=None):
        if path is None and name.split(".")[0] in self.NAMES:
            return importlib.machinery.PathFinder.find_spec(name, [VT_SITE])
        return None


sys.meta_path.append(_HypFinder())

warnings.simplefilter("ignore")


def setup_foxes():
    import foxes

    p = os.path.dirname(os.path.dirname(os.path.abspath(foxes.__file__)))
    if os.path.realpath(p) != os.path.realpath(REPO):
        raise RuntimeError(f"foxes imported from {p}, expected {REPO}")
    import numpy as np

    np.seterr(all="ignore")
    return foxes
