#!/bin/bash
# run.sh CNN [--replay FILE] : decide property CNN on /repo's current working tree.
cd "$(dirname "$0")" || exit 1
export CUDA_VISIBLE_DEVICES=-1 TF_CPP_MIN_LOG_LEVEL=3 TF_ENABLE_ONEDNN_OPTS=0
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHONWARNINGS=ignore PYTHONPATH="$PWD/lib:$PWD/checks"
exec /opt/venv/bin/python -m mc "$@"
