#!/bin/bash
# bash run.sh PROPERTY quick|thorough [--group G] [--case LABEL]
cd "$(dirname "$(realpath "$0")")" || exit 3
pid=$1; tier=$2; shift 2
scratch=$(mktemp -d /tmp/verif-home.XXXXXX) || exit 3
trap 'rm -rf "$scratch"' EXIT
export HOME=$scratch XDG_CACHE_HOME=$scratch/cache PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export VERIF_SEED=${VERIF_SEED:-1} VERIF_SCRATCH=$scratch
/opt/venv/bin/python -m vf "$pid" --tier "$tier" "$@"
