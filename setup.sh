#!/bin/bash
# Nothing to compile: the checks import the code from $VERIF_REPO/py at run time.  Verify the toolchain is there.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="${VERIF_REPO:-/repo}/py:$here" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
cd /tmp || exit 1
"${VERIF_PYTHON:-/opt/venv/bin/python}" - <<'PY'
import numpy, scipy, astropy, fitsio, yaml, skimage, desimeter, vlib.core
print("setup ok: numpy", numpy.__version__, "desimeter at", desimeter.__file__)
PY
