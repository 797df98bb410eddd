#!/bin/bash
# check.sh <property> <quick|thorough>: run one check against /repo's working tree.
# check.sh --selftest: verify that the machinery can run here (setup_cmd).
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
if [ "$1" = "--selftest" ]; then
    exec "$PY" -B -c "from harness import core; import harmonica; print('harness ready', core.hypothesis.__version__, harmonica.__file__)"
fi
exec "$PY" -B check.py "$1" --tier "${2:-quick}"
