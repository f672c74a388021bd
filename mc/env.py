"""Process environment of every check: single-threaded BLAS, no display, no byte code in /repo,
fibermat imported from /repo's working tree. Imported before anything else."""
import os
import sys
import tempfile
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMEXPR_NUM_THREADS",
          "VTK_SMP_MAX_THREADS", "LOKY_MAX_CPU_COUNT"):
    os.environ[k] = "1"
os.environ["MPLBACKEND"] = "Agg"
os.environ["PYVISTA_OFF_SCREEN"] = "true"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ["MPLCONFIGDIR"] = os.path.join(tempfile.gettempdir(), "fibermat-mc-mpl-%d" % os.getuid())
os.makedirs(os.environ["MPLCONFIGDIR"], exist_ok=True)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(REPO, "src"))
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402

np.seterr(all="ignore")


def load():
    """Import the library under test; a failure to import is an error of the tree, not a verdict."""
    import fibermat
    warnings.simplefilter("ignore")
    want = os.path.join(os.path.realpath(REPO), "src", "fibermat", "__init__.py")
    if os.path.realpath(fibermat.__file__) != want:
        raise SystemExit("fibermat imported from %s, not from %s" % (fibermat.__file__, want))
    return fibermat
