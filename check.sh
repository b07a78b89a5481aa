#!/bin/bash
# check.sh PROPERTY [quick|thorough]: run one monitor against /repo's working tree.
cd "$(dirname "$0")" || exit 4
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 HOME=/root LANG=C.UTF-8
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}" VERIF_SEED="${VERIF_SEED:-1}"
exec /opt/venv/bin/python -W ignore -m mon.run "$1"
