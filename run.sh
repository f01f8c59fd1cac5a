#!/bin/bash
# ./run.sh <property id>: run one check (VERIF_TIER=quick|thorough, VERIF_SEED)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=${MPLCONFIGDIR:-/opt/venv/mplconfig}
export PYTHONHASHSEED=${VERIF_SEED:-0}
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -m harness.run "$@"
