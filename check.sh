#!/bin/bash
# usage: check.sh <property id> [--tier quick|thorough]   (run from anywhere)
# Runs the property-based check against the working tree of /repo.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$here:${LAPLAX_REPO:-/repo}"
export JAX_PLATFORMS=cpu WANDB_MODE=offline PYTHONHASHSEED=0
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent-pycache
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
# constant_folding miscompiles some constant-heavy float64 programs in this jaxlib (see DESIGN.md)
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false --xla_disable_hlo_passes=constant_folding"
export TF_CPP_MIN_LOG_LEVEL=3 LOGURU_LEVEL=CRITICAL
exec /opt/venv/bin/python -W ignore -m harness.run "$@"
