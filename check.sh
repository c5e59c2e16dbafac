#!/bin/bash
# usage: check.sh <property> <quick|thorough> [--replay FILE]
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 \
       OMP_NUM_THREADS=1 PYTHONWARNINGS=ignore VERIF_TIER="${2:-quick}" LC_ALL=C.UTF-8
exec /opt/venv/bin/python -W ignore mc/run.py "$@"
