#!/bin/bash
# run.sh PROPERTY TIER
cd "$(dirname "$0")"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec python3-vt -W ignore check.py "$1" --tier "${2:-quick}"
