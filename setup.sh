#!/bin/bash
# Nothing to build: checks that the interpreter and the libraries are there.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
/opt/venv/bin/python -B - <<'PY'
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import hypothesis, numpy, xarray, attrs
print("hypothesis", hypothesis.__version__, "numpy", numpy.__version__)
PY
