#!/bin/bash
# check.sh PROPERTY [contract-filter ...] [-v]
cd "$(dirname "$0")" || exit 2
export JAX_PLATFORMS=cpu JAX_ENABLE_X64=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 MPLBACKEND=Agg
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1" OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHONWARNINGS=ignore
unset PYTHONPATH
exec /opt/venv/bin/python run.py "$@"
