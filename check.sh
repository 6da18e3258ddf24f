#!/bin/sh
# usage: check.sh <property>     (VERIF_SEED, VERIF_TIER from the environment)
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONHASHSEED=0 exec "$PY" -B -W ignore -m harness.check "$1"
