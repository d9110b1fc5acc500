#!/bin/bash
# Nothing to build: the checks import the Python sources from /repo directly.  Verify the toolchain is usable.
HERE=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="/repo:$HERE:$HERE/vendor" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c "import hypothesis, numpy, sympy, scipy, numba" || exit 1
