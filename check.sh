#!/bin/bash
# usage: check.sh <PROPERTY> [--thorough] [--replay FILE]
here=$(cd "$(dirname "$0")" && pwd)
export LANG=C.UTF-8 LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
export HF_HUB_OFFLINE=1 TRANSFORMERS_OFFLINE=1 HF_DATASETS_OFFLINE=1 HF_HUB_DISABLE_TELEMETRY=1
export CUDA_VISIBLE_DEVICES= TOKENIZERS_PARALLELISM=false OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export TRANSFORMERS_VERBOSITY=error TQDM_DISABLE=1 HF_DEACTIVATE_ASYNC_LOAD=1
unset PYTHONPATH
cd "$here" || exit 2
exec /opt/venv/bin/python -m mc "$@"
