#!/bin/bash
# usage: run.sh ID [--replay FILE]   -- runs the check of one property against /repo's working tree
cd "$(dirname "$0")" || exit 2
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LANG=C.UTF-8
export TF_USE_LEGACY_KERAS=1 TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES= PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export HF_HUB_OFFLINE=1 TRANSFORMERS_OFFLINE=1 PIP_NO_INDEX=1 GIT_TERMINAL_PROMPT=0 TF_ENABLE_ONEDNN_OPTS=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 MALLOC_ARENA_MAX=2
export PYTHONPATH=/verif:"${VERIF_REPO:-/repo}" PYTHONWARNINGS=ignore
export PYTHONPATH="$(pwd)":"${VERIF_REPO:-/repo}"
ID=$1; shift
exec /opt/venv/bin/python "checks/$ID.py" "$@"
