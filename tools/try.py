"""Sensitivity trial: run checks against a scratch copy with one textual change.

try.py C05[,C09] src/harmonica/x.py OLD NEW [count]    or    try.py C05 patch.diff
"""

import os
import re
import shutil
import subprocess
import sys
import tempfile

ids = sys.argv[1].split(",")
tmp = tempfile.mkdtemp(prefix="try-", dir="/tmp/w")
try:
    shutil.copytree("/repo/src", tmp + "/src", ignore=shutil.ignore_patterns("__pycache__"))
    if len(sys.argv) == 3:
        subprocess.run(["git", "apply", "--directory", "", os.path.abspath(sys.argv[2])], cwd=tmp, check=True)
    else:
        path = os.path.join(tmp, "src/harmonica", sys.argv[2])
        text = open(path).read()
        assert sys.argv[3] in text, "text not found"
        count = int(sys.argv[5]) if len(sys.argv) > 5 else 1
        open(path, "w").write(text.replace(sys.argv[3], sys.argv[4], count))
    for pid in ids:
        r = subprocess.run(
            [sys.executable, "-B", "check.py", pid, "--no-evidence"], cwd="/verif",
            env={**os.environ, "VERIF_REPO": tmp}, capture_output=True, text=True)
        lines = [l for l in (r.stdout + r.stderr).splitlines() if l.strip()]
        print("CAUGHT" if r.returncode == 1 and any("VIOLATION" in l for l in lines) else f"MISSED rc={r.returncode}",
              pid, " | ".join(l[:230] for l in lines[-4:]))
finally:
    shutil.rmtree(tmp)
