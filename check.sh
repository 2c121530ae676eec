#!/bin/bash
# usage: check.sh <property> [--tier quick|thorough] [--replay file]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export HDF5_USE_FILE_LOCKING=FALSE PYTHONHASHSEED=0
exec /opt/venv/bin/python -B -m mc "$@"
