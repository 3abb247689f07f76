#!/bin/bash
# bash check.sh <PROPERTY> [quick|thorough] [--replay FILE]
# Runs the monitor of one property against the working tree of /repo.
cd "$(dirname "$0")" || exit 2
export MPLBACKEND=Agg PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore -m mon.run "$@"
