#!/bin/bash
# run with cwd = repository; exit 0 = property holds in this scenario
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d)"
trap 'rm -rf "$scratch"' EXIT
export HOME="$scratch" TMPDIR="$scratch" RETURNN_CACHE_DIR="$scratch/cache" PYTHONPATH="$PWD" TF_USE_LEGACY_KERAS=1 TF_CPP_MIN_LOG_LEVEL=3 PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES= OMP_NUM_THREADS=1
/opt/venv/bin/python "$here/demo.py" < /dev/null
