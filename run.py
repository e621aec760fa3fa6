"""Entry point: python run.py <property> [--tier quick|thorough] [--replay FILE]

Explores the bounded space of the property exhaustively on the code in /repo.
Exit 0: held everywhere.  Exit 1 + "VIOLATION property=<id> replay=<path>": broken.
"""
import os
import sys

# one fixed environment, whatever the caller's
if os.environ.get("MC_CHILD") != "1":
    env = dict(os.environ)
    env.update(
        MC_CHILD="1",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        PYTHONNOUSERSITE="1",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        MPLBACKEND="Agg",
        TQDM_DISABLE="1",
        PYTHONWARNINGS="ignore",
        LANG="C.UTF-8",
    )
    env.pop("PYTHONPATH", None)
    py = "/opt/venv/bin/python"
    if not os.path.exists(py):
        py = sys.executable
    os.execve(py, [py, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.path.insert(0, "/repo")
# never read or write bytecode of the code under test
sys.pycache_prefix = os.path.join(here, ".no_pycache_%d" % os.getpid())

from mc.core import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
