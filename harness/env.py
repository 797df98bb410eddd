"""
Process environment of every check.

Import this first.  It pins thread counts (determinism, fork safety), makes the
code under test the working tree of /repo, and makes hypothesis importable from
whatever is installed in the sandbox, without letting that installation shadow
the numpy/scipy the code under test uses.
"""

import glob
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PINNED = {
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "2",
    "MPLBACKEND": "agg",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
}
for _k, _v in PINNED.items():
    os.environ[_k] = _v
os.environ.pop("NUMBA_DISABLE_JIT", None)
sys.dont_write_bytecode = True

_SRC = os.path.join(REPO, "src")
if _SRC not in sys.path:
    sys.path.insert(0, _SRC)


def _ensure(module):
    try:
        __import__(module)
        return
    except ImportError:
        pass
    for path in sorted(
        glob.glob("/opt/veriftools/pyvenv/lib/python3.*/site-packages"), reverse=True
    ):
        if path not in sys.path:
            sys.path.append(path)  # at the end: never shadows the venv
    try:
        __import__(module)
        return
    except ImportError:
        pass
    # Last resort: unpack the wheels in a temporary folder
    import tempfile
    import zipfile

    target = tempfile.mkdtemp(prefix="verif-wheels-")
    tag = f"cp{sys.version_info[0]}{sys.version_info[1]}"
    for pattern in (f"hypothesis-*{tag}-{tag}-*.whl", "sortedcontainers-*.whl", "attrs-*.whl"):
        for wheel in glob.glob(f"/opt/veriftools/wheels/{pattern}"):
            with zipfile.ZipFile(wheel) as z:
                z.extractall(target)
    sys.path.append(target)
    __import__(module)


import numpy  # noqa: E402, F401  (the venv's numpy must be imported first)

_ensure("hypothesis")
