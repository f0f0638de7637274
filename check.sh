#!/bin/bash
# usage: check.sh PROPERTY [run.py options]; a fresh process with no bytecode cache, so /repo's working tree is what runs
cd "$(dirname "$0")"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 LC_ALL=C.UTF-8
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
export PYTHONPYCACHEPREFIX="$W/pyc" VERIF_SCRATCH="$W"
/opt/venv/bin/python run.py "$@"
