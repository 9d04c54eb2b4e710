#!/bin/bash
# check.sh PROPERTY [quick|thorough]   or   check.sh --replay FILE   or   check.sh --selfcheck PROPERTY N
cd "$(dirname "$0")" || exit 2
export LANG=C.UTF-8 PYTHONHASHSEED=${DST_HASHSEED:-0} MPLBACKEND=Agg NUMBA_DISABLE_JIT=1 PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
unset PYTHONPATH
PY=/opt/venv/bin/python
case "$1" in
  --replay) exec $PY -m dst.runner --replay "$2" ;;
  --selfcheck) exec $PY -m dst.runner --property "$2" --selfcheck "$3" ;;
  *) P=$1; T=${2:-${VERIF_TIER:-quick}}; shift; shift; exec $PY -m dst.runner --property "$P" --tier "$T" "$@" ;;
esac
