#!/bin/bash
# nothing is built: this only makes sure that the interpreter and the libraries the checks need are there
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/opt/vp/py2compat
mkdir -p "$here/evidence" "$here/replays"
exec /opt/venv/bin/python - <<'PY'
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import hypothesis, numpy, netCDF4, py2compat
print("hypothesis", hypothesis.__version__, "numpy", numpy.__version__, "netCDF4", netCDF4.__version__)
PY
