#!/bin/bash
# usage: run.sh <PROPERTY-ID> [--thorough] [--replay FILE] [--only SUB] [-v]
# Runs one property-based check against the working tree of /repo (or $RAINBOW_REPO for a scratch copy).
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; shift
export RAINBOW_REPO="${RAINBOW_REPO:-/repo}"
scratch="$(mktemp -d /tmp/verif.XXXXXX)" || exit 2
trap 'rm -rf -- "$scratch"' EXIT
export VERIF_SCRATCH="$scratch"
export PYTHONHASHSEED=0 PYTHONPYCACHEPREFIX="$scratch/pyc" NUMBA_CACHE_DIR="$scratch/numba" MPLBACKEND=Agg
export MPLCONFIGDIR="$scratch/mpl" HOME="$scratch"
export HYPOTHESIS_STORAGE_DIRECTORY="$scratch/hyp"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS="${NUMBA_NUM_THREADS:-2}"
export PYTHONPATH="$RAINBOW_REPO:$here/lib:$here/vendor"
cd "$scratch" || exit 2
py=/opt/venv/bin/python
f=$(ls "$here"/checks/"$id"_*.py 2>/dev/null | head -1)
[ -n "$f" ] || { echo "no such check: $id" >&2; exit 2; }
case "$1" in --replay) set -- --replay "$(realpath "$2")" ;; esac
$py -W ignore::SyntaxWarning "$f" "$@"
