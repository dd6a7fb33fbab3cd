"""Environment for every check: the interpreter, thread counts, import paths.

`reexec()` restarts the program under /repo's virtual environment with a fixed
environment; `paths()` makes hypothesis, the xpress stand-in and /repo
importable.  Nothing is written into /repo.
"""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

FIXED = {
    "HOME": "/root",
    "LANG": "C.UTF-8",
    "LC_ALL": "C.UTF-8",
    "TZ": "UTC",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "PROJ_NETWORK": "OFF",
    "VERIF_BOOTED": "1",
}


def reexec() -> None:
    if os.environ.get("VERIF_BOOTED") == "1":
        return
    env = dict(os.environ)
    env.update(FIXED)
    env.pop("PYTHONPATH", None)
    os.execve(PY, [PY, "-X", "faulthandler"] + sys.argv, env)


def paths() -> None:
    for p in (os.path.join(VERIF, "shim"), REPO, VERIF):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    # sys.path is now VERIF, REPO, shim, ...; tool site-packages go last so
    # that numpy, scipy, ... come from the project's environment.
    if HYP not in sys.path:
        sys.path.append(HYP)
    import logging
    import warnings

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
