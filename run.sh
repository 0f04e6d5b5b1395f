#!/bin/bash
# run.sh PROPERTY [quick|thorough] [--replay FILE] [--only UNITGLOB] [-v]
# Explores one property on the code in /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
repo="${VERIF_REPO:-/repo}"
scratch="$(mktemp -d)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export MPLCONFIGDIR="$scratch" OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export JAX_PLATFORMS=cpu XLA_FLAGS="--xla_cpu_multi_thread_eigen=false --xla_cpu_max_isa=AVX2"
export PYTHONPATH="$repo:$here" VERIF_REPO="$repo" TF_CPP_MIN_LOG_LEVEL=3
cd "$here"
/opt/venv/bin/python "$here/mc/run.py" "$@"
rc=$?
rm -rf "$scratch"
exit $rc
