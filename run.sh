#!/bin/bash
# usage: run.sh <property> [quick|thorough] [-v]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 CUDA_VISIBLE_DEVICES=
PY=/opt/venv/bin/python
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"; shift; shift
if [ "$id" = replay ]; then exec "$PY" -m miemon replay "$tier" "$@"; fi
exec "$PY" -m miemon "$id" --tier "$tier" "$@"
