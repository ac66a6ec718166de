#!/usr/bin/env python3
"""Decides one property of tt-sketch by monitoring executions of /repo's code.

usage: check.py --property C01 [--tier quick|thorough] [--replay FILE]
Exit 0: held on everything explored.  Exit 1 + a VIOLATION line: broken.
Exit 2: no answer (harness error, or the deciding monitor was not reached)."""
import os
import sys

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
WANT = {
    "PYTHONHASHSEED": "0",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONUNBUFFERED": "1",
    "TTMON": "1",
}
if any(os.environ.get(k) != v for k, v in WANT.items()):
    env = dict(os.environ)
    env.update(WANT)
    env.pop("PYTHONPATH", None)
    sys.stdout.flush()
    os.execve(PY, [PY, "-s", os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)
from ttmon.core import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
