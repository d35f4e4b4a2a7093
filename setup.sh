#!/bin/bash
# Builds the helper programs of the checks from the committed files.
cd "$(dirname "$(readlink -f "$0")")" || exit 3
PY=$(command -v python3-vt || echo /opt/veriftools/pyvenv/bin/python)
exec "$PY" -m pbt.setup_tools
