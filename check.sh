#!/bin/bash
# usage: check.sh ID [quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=$(command -v python3)
exec "$PY" -B run.py "$@"
