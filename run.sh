#!/bin/bash
# run.sh <property> <quick|thorough> [options]: decide one property on /repo's working tree
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export OPENBLAS_CORETYPE=Haswell PYTHONHASHSEED=0
exec /opt/venv/bin/python -m mc.run "$@"
