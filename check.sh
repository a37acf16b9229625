#!/bin/bash
# usage: check.sh <property> [--tier quick|thorough] [--seed N] [--replay FILE] ...
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -m dst.driver "$@"
