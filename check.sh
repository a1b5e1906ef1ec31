#!/bin/bash
# usage: check.sh <property id> [quick|thorough]
# Runs the check of one property against the working tree of /repo.
cd "$(dirname "$0")" || exit 2
REPO=${VERIF_REPO:-/repo}
export PYTHONPATH="$REPO:$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONWARNINGS=ignore TZ=UTC LC_ALL=C.UTF-8
exec /opt/venv/bin/python -m mc "$@"
