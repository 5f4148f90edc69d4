#!/bin/bash
# usage: check.sh <property> [--tier quick|thorough] [-v]      |  check.sh --replay FILE
cd "$(dirname "$(readlink -f "$0")")" || exit 3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
if [ "$1" = "--replay" ]; then shift; exec /opt/venv/bin/python -m dv.replaycli "$@"; fi
exec /opt/venv/bin/python -m dv.run "$@"
