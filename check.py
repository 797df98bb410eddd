"""Run the check of one property: check.py C01 [--tier quick|thorough] [--replay FILE]."""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import core  # noqa: E402

if __name__ == "__main__":
    sys.exit(core.main())
