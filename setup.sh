#!/bin/bash
# Nothing to build: checks import /repo's working tree. Verify that the tools they need are there.
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo MPLBACKEND=Agg /opt/venv/bin/python -W ignore - <<'PY'
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import hypothesis, numpy, scipy, h5py, matplotlib, pyssht, pys2let, healpy
print("ok: hypothesis", hypothesis.__version__, "numpy", numpy.__version__)
PY
