#!/bin/bash
# check.sh PROPERTY TIER
cd "$(dirname "$0")"
[ -x build/export ] || bash setup.sh || exit 2
export PYTHONHASHSEED=0
exec python3-vt vc/run.py "$1" --tier "$2"
