#!/bin/bash
# bash run.sh <property id> [--replay FILE] [--facet NAME] [--scale X]
cd "$(dirname "$0")" || exit 2
export HOME=/root LANG=C.UTF-8 LC_ALL=C.UTF-8
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 CUDA_VISIBLE_DEVICES= MPLBACKEND=Agg OMP_NUM_THREADS=1
export RAY_ADDRESS=local RAY_USAGE_STATS_ENABLED=0 WANDB_MODE=disabled
export MLFLOW_DISABLE_TELEMETRY=true MLFLOW_DISABLE_AGENT_HINT=1 MLFLOW_ALLOW_FILE_STORE=true
# Stale bytecode is matched to its source by size and whole seconds only: never use any from the tree under test.
find /repo/src -name __pycache__ -type d -prune -exec rm -rf {} + 2>/dev/null
exec /opt/venv/bin/python -W ignore harness/main.py "$@"
