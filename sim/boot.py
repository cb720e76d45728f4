"""Boot the code under test: environment, import path, seams.

Every check imports the *current working tree* of /repo (or $STHENO_REPO) directly from source, so a
change there is always seen; nothing is cached (no bytecode is written).
"""
import os
import sys

for _k, _v in {
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "PYTHONDONTWRITEBYTECODE": "1",
    "CUDA_VISIBLE_DEVICES": "",
    "TF_CPP_MIN_LOG_LEVEL": "3",
    "TF_ENABLE_ONEDNN_OPTS": "0",
    "JAX_PLATFORMS": "cpu",
}.items():
    os.environ.setdefault(_k, _v)
sys.dont_write_bytecode = True

REPO = os.path.realpath(os.environ.get("STHENO_REPO", "/repo"))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

import types  # noqa: E402
import warnings  # noqa: E402

warnings.simplefilter("ignore")


class BootError(Exception):
    """The code under test cannot be imported."""


def boot():
    """Import the library from the tree under test and install the seams. Idempotent."""
    if "stheno" in sys.modules:
        return sys.modules["stheno"]
    while REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    from . import simthread

    simthread.install_lock_seam()
    if not os.path.exists(os.path.join(REPO, "stheno", "_version.py")):
        # A generated file that git ignores.
        mod = types.ModuleType("stheno._version")
        mod.version = mod.__version__ = "0.0.0+sim"
        mod.__version_tuple__ = mod.version_tuple = (0, 0, 0)
        sys.modules["stheno._version"] = mod
    import stheno

    path = os.path.realpath(stheno.__file__)
    if not path.startswith(REPO + os.sep):
        raise BootError(f"imported {path} instead of {REPO}")
    warnings.simplefilter("ignore")
    from . import seams

    seams.install()
    return stheno
