#!/bin/sh
# nothing to build: checks that the tools are there and that the specification parses
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -B -W ignore -m harness.setup
