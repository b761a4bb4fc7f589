#!/bin/bash
# ./replay.sh FILE: run the failing input of a replay file again against /repo's current source
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -m pyvc.replay "$@"
