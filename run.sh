#!/bin/bash
# usage: run.sh <property id> [quick|thorough] [--seed N] [--replay FILE]
# Runs the check of one property against the working tree in /repo.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent
export PYTHONHASHSEED="${PYTHONHASHSEED:-0}"
unset PYTHONPATH
cd "$here" || exit 2
id=$1; shift
exec /opt/venv/bin/python -W ignore "$here/checks/main.py" "$id" "$@"
