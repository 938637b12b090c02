#!/bin/bash
# usage: run.sh <property id> [--replay FILE]    (VERIF_TIER=quick|thorough, VERIF_SEED=n)
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="${VERIF_REPO:-/repo}:$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export TQDM_DISABLE=1
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -B -m vh.main "$@"
