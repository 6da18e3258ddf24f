#!/bin/sh
# usage: replay.sh <replay file>: make its calls again and have the specification judge them
f=$(readlink -f "$1")
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONHASHSEED=0 exec "$PY" -B -W ignore -m harness.replay "$f"
