#!/bin/bash
# run.sh PID [quick|thorough] [--replay FILE]: decide one property against /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg NUMBA_OPT=0 PYTHONWARNINGS=ignore
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=${PBX_OMP_THREADS:-4} OMP_DYNAMIC=false
export NUMBA_NUM_THREADS=1
ulimit -c 0
exec python "$here/pbx/main.py" "$@"
