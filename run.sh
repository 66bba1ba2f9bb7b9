#!/bin/bash
# Usage: run.sh <property id> [quick|thorough] [--replay FILE]
# Runs one property's check against the working tree in /repo (or $VERIF_REPO).
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export NUMEXPR_NUM_THREADS=1 NUMEXPR_MAX_THREADS=1 HDF5_USE_FILE_LOCKING=FALSE
scratch="$(mktemp -d /tmp/verif-XXXXXXXX)" || exit 3
export VERIF_SCRATCH="$scratch" TMPDIR="$scratch" HOME="$scratch/home"
export MPLCONFIGDIR="$scratch/mpl" HYPOTHESIS_STORAGE_DIRECTORY="$scratch/hyp"
mkdir -p "$HOME" "$MPLCONFIGDIR" "$HYPOTHESIS_STORAGE_DIRECTORY"
trap 'rm -rf -- "$scratch"' EXIT
trap 'exit 143' TERM INT
cd "$here" || exit 3
/opt/venv/bin/python -P harness/main.py "$@" 2>&1
rc=$?
exit $rc
