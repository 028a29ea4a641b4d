#!/bin/bash
# usage: run.sh <PROPERTY-ID> [--replay FILE] [--tier quick|thorough] [--seed N] [--scale X]
# Runs the generated-input search for one property against /repo's working tree.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUNBUFFERED=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export TF_NUM_INTRAOP_THREADS=1 TF_NUM_INTEROP_THREADS=1 TF_CPP_MIN_LOG_LEVEL=3 TF_ENABLE_ONEDNN_OPTS=0
export JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES= XLA_FLAGS="--xla_cpu_multi_thread_eigen=false"
export PYTHONPATH="${OE_REPO:-/repo}"
PY="${OE_PYTHON:-/opt/venv/bin/python}"
exec "$PY" "$here/pbt/run.py" "$@"
