#!/bin/bash
# usage: run.sh PID [--tier quick|thorough] [--replay FILE] [--scale X] [--facet NAME]
# Runs one property check against /repo's current working tree.
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$HERE" || exit 2
export PYTHONHASHSEED="${VERIF_HASHSEED:-0}" PYTHONDONTWRITEBYTECODE=1 TZ=UTC LANG=C.UTF-8 LC_ALL=C.UTF-8
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
PY=/opt/venv/bin/python
if [ ! -d "$HERE/.deps/hypothesis" ]; then bash "$HERE/setup.sh" >&2 || exit 3; fi
export PYTHONPATH="$HERE:$HERE/.deps${PYTHONPATH:+:$PYTHONPATH}"
exec "$PY" -m harness.core "$@"
