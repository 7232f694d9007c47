#!/bin/bash
# run.sh Cnn [tier]: decide one property against /repo's working tree.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PATH="/opt/venv/bin:$PATH"
export PYTHONPATH="$PWD/harness:${VERIF_REPO:-/repo}" PYTHONHASHSEED=0
[ -n "$2" ] && export VERIF_TIER="$2"
exec /opt/venv/bin/python -W ignore "checks/$(echo "$1" | tr 'A-Z' 'a-z').py"
