#!/bin/bash
# bash check.sh <PROPERTY> [--tier quick|thorough] [--replay FILE] [--only SUBCHECK]
HERE=$(cd "$(dirname "$0")" && pwd)
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYVISTA_OFF_SCREEN=true
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
exec /opt/venv/bin/python "$HERE/harness/main.py" "$@"
