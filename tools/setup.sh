#!/bin/bash
# Nothing is compiled ahead of a check; this only makes sure that what the checks need is there.
set -e
test -x /opt/venv/bin/python
/opt/venv/bin/python - <<'P'
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy, scipy, numba, pandas, openbabel, hypothesis
P
gfortran --version >/dev/null
P=$(mktemp -d); rmdir "$P"
