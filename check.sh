#!/bin/bash
# check.sh <property> [quick|thorough]   |   check.sh replay <file>
cd "$(dirname "$0")" || exit 3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH=
exec /opt/venv/bin/python -m vf "$@"
