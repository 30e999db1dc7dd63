#!/bin/sh
# check.sh PROPERTY TIER
cd "$(dirname "$0")" || exit 2
PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 exec /opt/venv/bin/python harness/check.py "$1" "$2"
