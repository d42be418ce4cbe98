#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [--replay FILE] [--sub NAME]
cd "$(dirname "$0")" || exit 3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore run_check.py "$@"
