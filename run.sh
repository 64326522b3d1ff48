#!/bin/bash
# usage: run.sh <property> [quick|thorough]     (run in /verif; imports the code from /repo)
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="$PWD:${VP_REPO:-/repo}" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export NUMBA_DISABLE_JIT="${NUMBA_DISABLE_JIT:-1}"
exec /opt/venv/bin/python -W ignore -m mc.run "$@"
