#!/bin/bash
# nothing is built: Python over /repo's working tree. Checks that the simulator and the code under it load.
cd "$(dirname "$0")/.." || exit 1
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
mkdir -p evidence
exec "$PY" -c "from sim import target; target.load(); print('ready')"
