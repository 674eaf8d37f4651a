#!/bin/bash
# ./run.sh <ID>                decide a property (VERIF_TIER, VERIF_SEED)
# ./run.sh --replay <file>     run one recorded case again
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PYTHONPATH="$PWD"
exec /opt/venv/bin/python -m pfmon "$@"
