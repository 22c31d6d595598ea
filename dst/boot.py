"""Process set-up: environment, import path, lock seam. Import this before anything else."""
import os, sys
REPO = os.environ.get("DST_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(k, "1")
os.environ["MPLBACKEND"] = "Agg"
sys.dont_write_bytecode = True
sys.path[:] = [REPO] + [p for p in sys.path if p not in (REPO, "")]

from . import sched          # noqa: E402   patches threading before the library is imported
sched.install_seams(os.path.join(REPO, "BayesicFitting") + os.sep)


def load():
    import warnings
    warnings.simplefilter("ignore")
    import numpy
    import matplotlib
    matplotlib.use("Agg")
    import BayesicFitting
    f = os.path.abspath(BayesicFitting.__file__)
    if not f.startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError("BayesicFitting imported from %s, not from %s" % (f, REPO))
    # load lazily imported corners now, so that children do not do it again and again
    import scipy.optimize, scipy.special, scipy.linalg, scipy.stats  # noqa
    numpy.seterr(all="ignore")
    return BayesicFitting
