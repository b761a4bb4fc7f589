#!/bin/bash
# ./check.sh C01 [options]: decide one property on /repo's current source
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -m pyvc.run "$@"
