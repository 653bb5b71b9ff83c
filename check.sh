#!/bin/bash
# check.sh <property> [--thorough | --replay FILE]
cd "$(dirname "$0")" || exit 1
export PYTHONPATH=/repo:$PWD PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC
exec /opt/venv/bin/python run.py "$@"
