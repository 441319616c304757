#!/bin/bash
# check.sh <property id>: decide one property on /repo's current working tree
cd "$(dirname "$0")" || exit 2
export HOME=/root PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_CORETYPE=Haswell PYTHONHASHSEED=0 XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1" PYTHONWARNINGS=ignore
exec /opt/venv/bin/python run.py "$@"
