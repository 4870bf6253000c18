#!/bin/bash
# run.sh PROPERTY [quick|thorough] : decide one property from /repo's sources
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
PY=/opt/venv/bin/python        # has the libraries the repository uses
[ -x "$PY" ] || PY=python3
exec "$PY" -W ignore -m sa.core "$1" "${2:-quick}"
