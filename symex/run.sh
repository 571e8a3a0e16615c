#!/bin/bash
# symex/run.sh C06 [--tier thorough]
cd "$(dirname "$0")/.."
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -m symex.run "$@"
