#!/bin/sh
# run.sh Cxx: decides one property against /repo's working tree
cd "$(dirname "$0")" || exit 2
PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUTF8=1 exec /opt/venv/bin/python -W ignore check.py "$1"
