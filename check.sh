#!/bin/bash
# usage: check.sh CNN [--replay FILE]; runs the monitors of one property against /repo's working tree.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent PYTHONHASHSEED=0 LANG=C.UTF-8 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python run.py "$@"
