#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONHASHSEED=0
[ -d /opt/vp/mplconfig ] && export MPLCONFIGDIR=/opt/vp/mplconfig
export PYTHONPATH="$PWD/harness:$PWD/harness/checks"
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
exec /opt/venv/bin/python harness/check.py "$1"
