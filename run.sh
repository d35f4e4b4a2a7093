#!/bin/bash
# bash run.sh CHECK [--tier quick|thorough] [--replay FILE] ...
cd "$(dirname "$(readlink -f "$0")")" || exit 3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
PY=$(command -v python3-vt || echo /opt/veriftools/pyvenv/bin/python)
exec "$PY" pbt/main.py "$@"
