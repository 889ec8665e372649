#!/bin/bash
# run.sh <property id> [--replay FILE | --family NAME]
# Runs the monitors of one property against /repo's working tree.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export QT_QPA_PLATFORM=offscreen TZ=UTC
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
unset PYTHONPATH
: "${VERIF_SEED:=1}"; : "${VERIF_TIER:=quick}"; export VERIF_SEED VERIF_TIER
id="$1"; shift
exec /opt/venv/bin/python -B "$here/checks/${id}.py" "$@"
