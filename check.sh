#!/bin/bash
# ./check.sh ID : decide property ID on /repo's current tree
cd "$(dirname "$0")"
SCR=$(mktemp -d /tmp/verif_XXXXXX)
trap 'rm -rf "$SCR"' EXIT
export PYTHONDONTWRITEBYTECODE=1 NUMBA_CACHE_DIR="$SCR/numba" MPLCONFIGDIR="$SCR/mpl" MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=1 PYTHONHASHSEED=0
export NUMBA_DISABLE_JIT=1 PYVISTA_OFF_SCREEN=true HOME="$SCR" VERIF_SCRATCH="$SCR"
/opt/venv/bin/python engine/run.py "$@"
rc=$?
exit $rc
