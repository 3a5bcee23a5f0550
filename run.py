#!/usr/bin/env python3
"""run.py <ID> [--tier quick|thorough] [--replay FILE] [--jobs N] [--scale X]

Runs one check of /verif against the code in /repo's working tree (KERRGEOPY_REPO overrides the
path for experiments on scratch copies).  Exit 0: held on everything explored.  Exit 1: VIOLATION.
Exit 3: inconclusive (a monitor was never reached, or too much could not be decided)."""
import os
import sys

WANT = {"PYTHONHASHSEED": "0", "MPLBACKEND": "Agg", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
        "MKL_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONWARNINGS": "ignore"}
PY = "/opt/venv/bin/python"
if any(os.environ.get(k) != v for k, v in WANT.items()):
    os.environ.update(WANT)
    exe = PY if os.path.exists(PY) else sys.executable
    os.execv(exe, [exe, "-W", "ignore", "-B"] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("KERRGEOPY_REPO", "/repo")
sys.pycache_prefix = os.path.join(HERE, "replays", "no-such-cache")  # never read a stale .pyc
sys.path[:0] = [REPO, os.path.join(HERE, "lib"), HERE]

import common  # noqa: E402

if __name__ == "__main__":
    sys.exit(common.main(sys.argv[1:], HERE, REPO))
