#!/bin/bash
# run.sh <property> <quick|thorough>   or   run.sh --replay <file>
# The library is pure Python: it is imported straight from /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="${VERIF_REPO:-/repo}:$here/harness"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 NO_GCE_CHECK=true
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export VERIF_SEED="${VERIF_SEED:-1}"
unset SAWATABI_ENV
cd "$here" || exit 2
exec /opt/venv/bin/python harness/run.py "$@"
