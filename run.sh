#!/bin/bash
# ./run.sh C01 quick
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg \
  OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 RAYON_NUM_THREADS=1 HOME=${HOME:-/root}
exec /opt/venv/bin/python -W ignore run.py "$@"
