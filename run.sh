#!/bin/bash
# run.sh PROPERTY [tier]: decide one property against /repo's working tree
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -B harness/check.py "$@"
