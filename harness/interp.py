"""A helper process that evaluates forward models with numba's JIT disabled."""

import atexit
import os
import pickle
import subprocess
import sys

_proc = None


def evaluate(*args, **kwargs):
    """models.evaluate(*args, **kwargs) in an interpreted process (one per worker)."""
    global _proc
    if _proc is None or _proc[0] != os.getpid():
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        child = subprocess.Popen(
            [sys.executable, "-B", "-m", "harness.interp"], cwd=here,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        _proc = (os.getpid(), child)
        atexit.register(child.stdin.close)
    child = _proc[1]
    pickle.dump((args, kwargs), child.stdin)
    child.stdin.flush()
    ok, value = pickle.load(child.stdout)
    return ok, value


def main():
    from . import env  # noqa: F401, PLC0415

    os.environ["NUMBA_DISABLE_JIT"] = "1"
    import warnings  # noqa: PLC0415

    warnings.simplefilter("ignore")
    from . import models  # noqa: PLC0415
    import numpy as np  # noqa: PLC0415

    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    while True:
        try:
            args, kwargs = pickle.load(sys.stdin.buffer)
        except EOFError:
            return
        try:
            with np.errstate(all="ignore"):
                answer = (True, models.evaluate(*args, **kwargs))
        except Exception as exc:  # noqa: BLE001
            answer = (False, repr(exc))
        pickle.dump(answer, out)
        out.flush()


if __name__ == "__main__":
    main()
