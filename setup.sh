#!/bin/bash
# nothing to build: the verifier is Python source; check that its dependencies import
cd "$(dirname "$0")" || exit 1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONDONTWRITEBYTECODE=1
"$PY" -c "
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3, numpy
from pyvc import harness
print('z3', z3.get_version_string(), 'numpy', numpy.__version__)
"
