#!/bin/bash
# the framework is pure Python: verify that it imports and that /repo is usable
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
[ -n "$MPLCONFIGDIR" ] || export MPLCONFIGDIR=/opt/vp/mplconfig
unset PYTHONPATH
/opt/venv/bin/python -W ignore -c "
import sys; sys.path.insert(0, '/repo/src')
import mc.core, mc.bits, cssrlib.gnss, numpy
print('ok', cssrlib.gnss.__file__)"
