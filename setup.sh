#!/bin/bash
# Nothing to build: the checks import /repo's working tree. Verify the toolchain is there.
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="${VF_REPO:-/repo}:$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
mkdir -p evidence
exec "$PY" -W ignore -c "
import h5py, numpy, numba, unyt, astropy, swiftsimio, vf.core, vf.gen, vf.remote
print('ready: swiftsimio from', swiftsimio.__file__)"
