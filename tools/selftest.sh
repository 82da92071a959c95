#!/bin/bash
# soundness and reach of the loop machinery: bash tools/selftest.sh [test names]
cd "$(dirname "$0")/.." || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python selftest/seqtest.py "$@"
