"""Import the system under test from /repo's working tree, and Hypothesis from .deps
(or the tooling venv).  Nothing here writes outside a private temporary directory."""
import atexit
import importlib.util
import logging
import os
import shutil
import sys
import tempfile
import types
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"

# private pytensor compile dir: no C code is compiled, but pytensor insists on one
_tmp = tempfile.mkdtemp(prefix="verif-pt-")
_pid = os.getpid()


def _cleanup():
    if os.getpid() == _pid:
        shutil.rmtree(_tmp, ignore_errors=True)


atexit.register(_cleanup)
os.environ["PYTENSOR_FLAGS"] = (
    "cxx=,mode=FAST_COMPILE,floatX=float64,traceback__limit=0,"
    "base_compiledir=" + _tmp
)
os.environ.setdefault("MPLCONFIGDIR", _tmp)
os.environ.setdefault("XDG_CACHE_HOME", _tmp)
os.environ.setdefault("XDG_CONFIG_HOME", _tmp)
os.makedirs(os.path.join(_tmp, "astropy"), exist_ok=True)

warnings.simplefilter("ignore")

deps = os.path.join(HERE, ".deps")
if os.path.isdir(os.path.join(deps, "hypothesis")):
    sys.path.append(deps)
else:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

sys.path.insert(0, os.path.join(REPO, "src"))
if not os.path.exists(
    os.path.join(REPO, "src", "exoplanet", "exoplanet_version.py")
):
    _m = types.ModuleType("exoplanet.exoplanet_version")
    _m.__version__ = "0.0.0"
    sys.modules["exoplanet.exoplanet_version"] = _m

import numpy as np  # noqa: E402

np.seterr(all="ignore")

import hypothesis  # noqa: E402,F401
import pytensor  # noqa: E402

logging.getLogger("pytensor").setLevel(logging.CRITICAL)

import exoplanet as xo  # noqa: E402

logging.getLogger("pytensor").setLevel(logging.CRITICAL)
assert os.path.realpath(xo.__file__).startswith(
    os.path.realpath(REPO) + os.sep
), xo.__file__
warnings.simplefilter("ignore")
