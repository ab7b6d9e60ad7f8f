#!/bin/bash
# check.sh <property id> [run.py options]: runs one check against /repo's working tree.
# gggears is pure Python, installed editable: importing it IS building the current tree.
cd "$(dirname "$0")" || exit 2
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 LANG=C.UTF-8 LC_ALL=C.UTF-8
export PYTHONPATH=/repo/src
exec /opt/venv/bin/python run.py "$@"
