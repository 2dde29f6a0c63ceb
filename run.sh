#!/bin/bash
# usage: run.sh <property id> [--replay FILE]   (VERIF_SEED, VERIF_TIER from the environment)
# Runs the monitors of one property against the working tree in /repo.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=${VERIF_REPO:-/repo}:$here PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export DIFF_DIFF_BACKEND=python MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export LANG=C.UTF-8
scratch=$(mktemp -d /tmp/verif-run.XXXXXXXX) || exit 3
trap 'rm -rf "$scratch"' EXIT
export VERIF_SCRATCH=$scratch MPLCONFIGDIR=$scratch/mpl HOME=$scratch/home
mkdir -p "$HOME" "$MPLCONFIGDIR"
cd "$scratch" || exit 3
/opt/venv/bin/python -X faulthandler -m mon.check "$@"
