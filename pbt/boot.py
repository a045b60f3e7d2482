"""Process set-up: library paths, no stale byte code, silent code under test.  Import this first."""

import contextlib
import io
import os
import sys
import tempfile
import atexit
import shutil
import warnings
import logging

for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
os.environ["MPLBACKEND"] = "Agg"
os.environ.pop("DISPLAY", None)
os.environ["PYVISTA_OFF_SCREEN"] = "true"

REPO = os.environ.get("PBT_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SCRATCH = tempfile.mkdtemp(prefix="pbt_")
_OWNER = os.getpid()


@atexit.register
def _cleanup():
    if os.getpid() == _OWNER:
        shutil.rmtree(SCRATCH, ignore_errors=True)


os.environ["MPLCONFIGDIR"] = os.path.join(SCRATCH, "mpl")
os.makedirs(os.environ["MPLCONFIGDIR"], exist_ok=True)

# third-party libraries first (their cached byte code is fine) ...
import numpy  # noqa: E402,F401
import yaml  # noqa: E402,F401
import matplotlib  # noqa: E402,F401

matplotlib.use("Agg")
import matplotlib.pyplot  # noqa: E402,F401
import pyvista  # noqa: E402

try:
    import hypothesis  # noqa: F401
except ImportError:
    for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
        if os.path.isdir(_p):
            sys.path.append(_p)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        import glob

        for _w in glob.glob("/opt/veriftools/wheels/*.whl"):
            if os.path.basename(_w).startswith(("hypothesis-", "sortedcontainers-", "attrs-")):
                sys.path.append(_w)
        import hypothesis  # noqa: F401

# ... then the code under test, always compiled from the present source text
sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(SCRATCH, "pyc")
sys.path.insert(0, REPO)
warnings.filterwarnings("ignore")
logging.getLogger().setLevel(logging.CRITICAL + 1)
try:
    pyvista.vtk_verbosity("off")
except Exception:
    pass
try:
    import vtkmodules.vtkCommonCore as _vtkc

    _vtkc.vtkObject.GlobalWarningDisplayOff()
    pyvista.set_error_output_file(os.path.join(SCRATCH, "vtk.log"))
except Exception:
    pass

# the plotting window can be replaced by a recording stand-in (simio.Display)
STAGE = None
_Plotter = pyvista.Plotter


class Plotter(_Plotter):
    def __new__(cls, *a, **k):
        return super().__new__(cls) if STAGE is None else STAGE.plotter(a, k)


pyvista.Plotter = Plotter

import pyGCodeDecode  # noqa: E402

if not os.path.abspath(pyGCodeDecode.__file__).startswith(os.path.abspath(REPO) + os.sep):
    raise ImportError(f"pyGCodeDecode imported from {pyGCodeDecode.__file__}, not from {REPO}")
from pyGCodeDecode import gcode_interpreter  # noqa: E402,F401


@contextlib.contextmanager
def silenced():
    """Capture stdout and stderr of the code under test."""
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        yield out
