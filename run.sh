#!/bin/bash
# usage: ./run.sh ID [quick|thorough]   |   ./run.sh --replay FILE   |   ./run.sh --setup
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
if [ "$1" = "--setup" ]; then exec "$PY" -B dst/main.py setup; fi
if [ "$1" = "--replay" ]; then exec "$PY" -B dst/main.py replay "$2"; fi
[ -n "$2" ] && export VERIF_TIER="$2"
exec "$PY" -B dst/main.py check "$1"
