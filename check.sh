#!/bin/bash
# check.sh C01 [options]: run the check of one property with the interpreter of the repository.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUTF8=1
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
exec "$py" -B "$here/pbt/run.py" "$@"
