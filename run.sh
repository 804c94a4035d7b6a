#!/bin/bash
# usage: run.sh <property> [quick|thorough] [more options]
# Rebuilds the Cython extension from /repo's working tree, then runs the
# generated-input check of one property against /repo.
export HOME="${HOME:-/root}" LANG=C.UTF-8
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONWARNINGS=ignore
cd "$(dirname "$(readlink -f "$0")")" || exit 3
prop="$1"; shift
tier="quick"
case "$1" in quick|thorough) tier="$1"; shift;; esac
export VERIF_TIER="$tier" VERIF_SEED="${VERIF_SEED:-1}"
if [ -z "$VP_REPO" ]; then
    bash vlib/build_ext.sh >/dev/null 2>&1 || { echo "extension build failed"; exit 3; }
fi
exec /opt/venv/bin/python -m vlib "$prop" --tier "$tier" "$@"
