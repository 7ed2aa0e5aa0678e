#!/bin/bash
# run.sh <property> [quick|thorough] : run one check against /repo's working tree.
cd "$(dirname "$0")" || exit 2
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONHASHSEED=0
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONWARNINGS=ignore
[ -n "$2" ] && export VERIF_TIER="$2"
exec /opt/venv/bin/python lib/main.py "$@"
