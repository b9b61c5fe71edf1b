#!/bin/bash
# usage: bash run.sh <PROPERTY> quick|thorough        run a check
#        bash run.sh <PROPERTY> replay <replay.json>  re-run one recorded violating case
# Runs the real code from /repo's working tree (pure Python, JIT-compiled on import).
cd "$(dirname "$0")" || exit 2
export VF_REPO="${VF_REPO:-/repo}"
export PYTHONPATH="$VF_REPO:$PWD"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export HDF5_USE_FILE_LOCKING=FALSE
export NUMBA_NUM_THREADS="${NUMBA_NUM_THREADS:-4}" OMP_NUM_THREADS=2 OPENBLAS_NUM_THREADS=2
export TQDM_DISABLE=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -W ignore -m vf "$@"
