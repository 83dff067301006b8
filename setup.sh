#!/bin/sh
# Nothing to build: the checks read /repo's sources on every run.  Fails when a
# tool is missing.
set -e
cd "$(dirname "$0")"
/opt/veriftools/pyvenv/bin/python -c "import z3, numpy, Cython"
/opt/venv/bin/python -c "import numpy, scipy"
mkdir -p evidence
