"""Make and confirm planted bugs: seed.py SPEC.py [id...]

SPEC.py defines BUGS, a list of dicts: id, property, file (rel. to src/harmonica) with old, new (or edits:
a list of those triples), demo (Python text; uses assert), needs, breaks. Each one is confirmed in a scratch copy of
/repo (applies, demo passes without and fails with it, stable tests pass) and then kept in /verif/seeded.
"""

import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

PY = "/opt/venv/bin/python"
bugs = runpy.run_path(sys.argv[1])["BUGS"]
only = sys.argv[2:]
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO = """#!/bin/bash
# exit 0 if the property holds on this example
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore "$here/demo.py"
"""


def run(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, env={**os.environ, **env}, capture_output=True, text=True)


def tests(copy):
    """The stable tests that do not pass in a scratch copy."""
    passed = set()
    for i, (jit, more) in enumerate((("1", []), ("0", ["-m", "use_numba", "--junitprefix=numba"]))):
        xml = f"{copy}/report{i}.xml"
        run([PY, "-B", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "8", "--timeout=300", "--tb=no",
             "--continue-on-collection-errors", "--doctest-modules", "--doctest-continue-on-failure",
             "--ignore=test/test_igrf.py", "-o", "junit_family=xunit2", f"--junitxml={xml}", *more,
             "src/harmonica", "test"], copy, NUMBA_DISABLE_JIT=jit, PYTHONPATH=f"{copy}/src", NUMBA_NUM_THREADS="2",
            OMP_NUM_THREADS="2", OPENBLAS_NUM_THREADS="2", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
            MPLBACKEND="agg", LANG="C.UTF-8")
    out = f"{copy}/out.json"
    run(["/usr/bin/python3", "/opt/vp/results.py", out, f"junit:{copy}/report*.xml"], copy)
    passed = set(json.load(open(out))["passed"])
    return sorted(stable - passed)


for bug in bugs:
    if only and bug["id"] not in only:
        continue
    copy = tempfile.mkdtemp(prefix="seed-", dir="/tmp/w")
    try:
        subprocess.run(["cp", "-a", "/repo", copy + "/r"], check=True)
        copy += "/r"
        target = f"/verif/seeded/{bug['id']}"
        edits = bug.get("edits") or [(bug["file"], bug["old"], bug["new"])]
        for file, old, new in edits:
            path = f"{copy}/src/harmonica/{file}"
            text = open(path).read()
            count = text.count(old)
            if count != 1:
                print(bug["id"], "REJECTED: text found", count, "times:", old[:60])
                break
            open(path, "w").write(text.replace(old, new))
        else:
            diff = run(["git", "diff"], copy).stdout
            d = tempfile.mkdtemp(dir="/tmp/w")
            open(d + "/demo.py", "w").write(bug["demo"].lstrip())
            open(d + "/demo.sh", "w").write(DEMO)
            os.chmod(d + "/demo.sh", 0o755)
            clean = run(["bash", d + "/demo.sh"], "/repo")
            dirty = run(["bash", d + "/demo.sh"], copy)
            if clean.returncode or not dirty.returncode:
                print(bug["id"], "REJECTED: demo", clean.returncode, dirty.returncode, clean.stderr[-400:])
                shutil.rmtree(d)
                continue
            missing = tests(copy)
            if missing:
                print(bug["id"], "REJECTED: tests fail:", len(missing), missing[:4])
                shutil.rmtree(d)
                continue
            shutil.rmtree(target, ignore_errors=True)
            shutil.copytree(d, target)
            shutil.rmtree(d)
            open(target + "/patch.diff", "w").write(diff)
            json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                      open(target + "/meta.json", "w"), indent=1)
            print(bug["id"], "kept;", dirty.stderr.strip().splitlines()[-1][:100] if dirty.stderr.strip() else "")
    finally:
        shutil.rmtree(os.path.dirname(copy) if copy.endswith("/r") else copy, ignore_errors=True)
    sys.stdout.flush()
