#!/bin/bash
# run_check.sh <property id> [quick|thorough]   -- exit 0: held; 1: VIOLATION printed; else: error of the check
cd "$(dirname "$0")" || exit 3
ID=${1:?usage: run_check.sh ID}
export VERIF_TIER=${2:-${VERIF_TIER:-quick}} VERIF_SEED=${VERIF_SEED:-1}
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PIP_NO_INDEX=1 PYTHONPATH= LC_ALL=C.UTF-8
CACHE=$(mktemp -d) || exit 3
trap 'rm -rf "$CACHE"' EXIT
export PYTHONPYCACHEPREFIX="$CACHE" VERIF_SCRATCH="$CACHE"
/opt/venv/bin/python -B -W ignore mc/main.py "$ID"
