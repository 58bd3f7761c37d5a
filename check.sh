#!/bin/bash
# usage: check.sh <PROPERTY> [--tier quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
unset FLEE_TYPE_CHECK
export PYTHONPATH="$PWD"
exec /opt/venv/bin/python -m mc.run "$@"
