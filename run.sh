#!/bin/sh
# run.sh ID|--setup [...]: runs a check with the interpreter pipit is installed for
cd "$(dirname "$0")" || exit 3
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 exec "$PY" run.py "$@"
