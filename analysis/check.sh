#!/bin/bash
# check.sh PROPERTY TIER
export PYTHONHASHSEED=0
exec python3 "$(dirname "$0")/check.py" "$1" --tier "${2:-quick}"
