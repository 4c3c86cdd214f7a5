#!/bin/sh
# run one check: ./run.sh C01 [--tier quick|thorough] [--seed N] [--replay FILE] [--cases N] [--jobs N]
here=$(cd "$(dirname "$0")" && pwd)
PY=${VMON_PYTHON:-/opt/venv/bin/python}
[ -x "$PY" ] || PY=python3
export PYTHONPATH="${VMON_REPO:-/repo}:$here"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=$here/evidence/.no-pycache PYTHONHASHSEED=0
export MPLBACKEND=Agg MPLCONFIGDIR=$here/evidence/.mpl
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
mkdir -p "$MPLCONFIGDIR"
cd "$here" || exit 2
exec "$PY" -W ignore -m vmon "$@"
