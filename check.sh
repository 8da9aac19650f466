#!/bin/bash
# check.sh <property> <quick|thorough> [extra run.py arguments]
# Runs one check against the working tree of /repo (pure Python: "building" is
# importing it afresh, with a private byte-code cache so no stale code is used).
cd "$(dirname "$0")" || exit 2
cache=$(mktemp -d /tmp/mlpaper-mc.XXXXXX) || exit 2
trap 'rm -rf "$cache"' EXIT
export PYTHONPYCACHEPREFIX="$cache/pyc" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export MC_SCRATCH="$cache/scratch" TMPDIR="$cache/tmp"
mkdir -p "$MC_SCRATCH" "$TMPDIR"
unset PYTHONPATH
prop=$1; tier=$2; shift 2
/opt/venv/bin/python -W ignore run.py "$prop" --tier "$tier" "$@"
