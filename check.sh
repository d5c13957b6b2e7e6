#!/bin/bash
# usage: check.sh <property id> <quick|thorough>
cd "$(dirname "$0")" || exit 4
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export MPLBACKEND=Agg LANG=C.UTF-8 GRADIO_ANALYTICS_ENABLED=False
PY=/opt/venv/bin/python
exec "$PY" -W ignore run.py "$@"
