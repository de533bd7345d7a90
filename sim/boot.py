"""Sets the process environment, installs the seams and imports mocat from /repo."""
import os
import sys

ENV = dict(PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1", MPLBACKEND="Agg", JAX_PLATFORMS="cpu",
           XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", TF_CPP_MIN_LOG_LEVEL="3")
REPO = os.environ.get("MOCAT_SIM_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

_done = False


def boot():
    global _done
    if _done:
        return
    _done = True
    os.environ.update(ENV)
    sys.dont_write_bytecode = True
    if "MPLCONFIGDIR" not in os.environ or os.environ["MPLCONFIGDIR"].startswith("/opt/vp"):
        import tempfile
        import atexit
        import shutil
        d = tempfile.mkdtemp(prefix="mocat-sim-mpl-")
        os.environ["MPLCONFIGDIR"] = d
        atexit.register(shutil.rmtree, d, True)
    sys.path.insert(0, REPO)
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    import warnings
    warnings.filterwarnings("ignore")
    import seams
    seams.install()
    import mocat  # noqa
    src = os.path.realpath(mocat.__file__)
    if not src.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"mocat imported from {src}, expected {REPO}")
