#!/bin/bash
# usage: run.sh <property> [quick|thorough]
# Runs one check of /verif against the working tree of /repo.
cd "$(dirname "$0")" || exit 3
export LANG=C.UTF-8 MPLBACKEND=Agg PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 MALLOC_PERTURB_=190
unset PYTHONPATH PYTHONSTARTUP
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -W ignore -m lib.main "$@"
