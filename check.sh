#!/bin/bash
# check.sh C01 quick|thorough [--seed N] [--replay FILE]
V=$(dirname "$(realpath "$0")")
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH=$V
exec /opt/venv/bin/python -m mon "$@"
