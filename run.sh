#!/bin/bash
# usage: run.sh <property> [--tier quick|thorough] [--replay file]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
[ -n "$MPLCONFIGDIR" ] || export MPLCONFIGDIR=/opt/vp/mplconfig
unset PYTHONPATH
PY=/opt/venv/bin/python
exec "$PY" -W ignore -m mc.core "$@"
