#!/bin/bash
# ./run.sh Cxx quick|thorough        ./run.sh Cxx --replay FILE
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0 LC_ALL=C.UTF-8
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -B -W ignore mc/run.py "$@"
