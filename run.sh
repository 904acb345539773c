#!/bin/bash
# run.sh <property> [quick|thorough] [--seed N] [--only family] [--replay file]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg LANG=C.UTF-8
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH="$PWD"
exec /opt/venv/bin/python -B -c 'import sys; from vlib import boot; from vlib.core import main; sys.exit(main(sys.argv[1:]))' "$@" </dev/null
