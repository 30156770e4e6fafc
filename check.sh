#!/bin/bash
# check.sh PROPERTY [tier]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES= MPLBACKEND=Agg OMP_NUM_THREADS=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -B check.py "$@"
