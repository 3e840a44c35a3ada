#!/bin/bash
# replay.sh <replay file>   -- runs the recorded case (or history of cases) again on /repo
F=$(realpath "${1:?usage: replay.sh FILE}")
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH= LC_ALL=C.UTF-8
CACHE=$(mktemp -d) || exit 3
trap 'rm -rf "$CACHE"' EXIT
export PYTHONPYCACHEPREFIX="$CACHE" VERIF_SCRATCH="$CACHE"
/opt/venv/bin/python -B -W ignore mc/main.py --replay "$F"
