"""Process set-up shared by every entry point.

Imported first.  Pins the environment (CPU, one thread per process, nothing written
next to the sources), puts the code under test on sys.path and makes Hypothesis
importable from the offline tool environment when it is not installed for this
interpreter.
"""
import os
import sys

sys.dont_write_bytecode = True
os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault(
    "XLA_FLAGS",
    "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
)
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
os.environ.setdefault("HYPOTHESIS_STORAGE_DIRECTORY", "/nonexistent/hypothesis")

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# The code under test.  The override exists only for trying the machinery out on
# scratch copies; the registered commands never set it.
REPO = os.environ.get("VERIF_REPO", "/repo")

if REPO not in sys.path:
    sys.path.insert(0, REPO)
if VERIF not in sys.path:
    sys.path.insert(0, VERIF)


def _ensure_hypothesis():
    try:
        import hypothesis  # noqa: F401
        return
    except ImportError:
        pass
    for extra in (
        os.path.join(VERIF, ".deps"),
        "/opt/veriftools/pyvenv/lib/python3.12/site-packages",
    ):
        if os.path.isdir(os.path.join(extra, "hypothesis")):
            # At the end, so that jax/numpy keep coming from this interpreter.
            sys.path.append(extra)
            import hypothesis  # noqa: F401
            return
    import subprocess
    import tempfile
    target = tempfile.mkdtemp(prefix="verif-deps-")
    subprocess.run(
        [sys.executable, "-m", "pip", "install", "-q", "--no-index", "--find-links",
         "/opt/veriftools/wheels", "--target", target, "hypothesis"],
        check=True,
    )
    sys.path.append(target)
    import hypothesis  # noqa: F401


_ensure_hypothesis()
