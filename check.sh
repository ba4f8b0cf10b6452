#!/bin/bash
# usage: check.sh PROPERTY [--replay FILE]   (tier and seed come from VERIF_TIER and VERIF_SEED)
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/opt/vp/py2compat PYTHONHASHSEED=0 TZ=UTC
export SCRATCH=/nonexistent-scratch OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 LC_ALL=C.UTF-8
exec /opt/venv/bin/python "$here/harness/run.py" "$@"
