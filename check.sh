#!/bin/bash
# bash check.sh <property id> [--replay FILE]   (tier and seed: VERIF_TIER, VERIF_SEED)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1
export OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 MPLBACKEND=Agg
export TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES= TQDM_DISABLE=
exec /opt/venv/bin/python -B -W ignore harness/run.py "$@"
