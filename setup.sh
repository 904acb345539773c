#!/bin/bash
# nothing to compile: checks import the pure-Python tree of /repo directly;
# this only shows that the interpreter, numpy and the tree can be imported
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"
exec /opt/venv/bin/python -B -c 'from vlib import boot; import src.BELLA.constraints; print("ready")'
