#!/bin/sh
# usage: check.sh <property> [quick|thorough] [--replay FILE] [...]
# Runs the monitor of one property against the working tree of /repo.
cd "$(dirname "$0")" || exit 3
id="$1"; shift
tier="${VERIF_TIER:-quick}"
case "$1" in quick|thorough) tier="$1"; shift;; esac
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export MPLBACKEND=Agg PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
[ -d /opt/mplconfig ] && export MPLCONFIGDIR=/opt/mplconfig
PY="${VF_PYTHON:-/opt/venv/bin/python}"
exec "$PY" -m vf.main "$id" --tier "$tier" "$@"
