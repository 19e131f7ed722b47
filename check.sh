#!/bin/bash
# check.sh <property id> <quick|thorough> [--replay FILE]
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export HYPOTHESIS_NO_PLUGINS=1 PYTHONWARNINGS=ignore
# never use stale byte code of /repo: compile to (and read from) a private empty directory
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export PYTHONPYCACHEPREFIX="$tmp/pyc" TMPDIR="$tmp" VERIF_TIER="${2:-quick}"
/opt/venv/bin/python -B run.py "$@"
