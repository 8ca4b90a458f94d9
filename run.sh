#!/bin/bash
# run.sh <property> [--quick|--thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8 TZ=UTC
exec /opt/venv/bin/python -W ignore run.py "$@"
