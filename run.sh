#!/bin/bash
# run.sh ID TIER: the command registered in MANIFEST.json
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 LANG=C.UTF-8
unset PYTHONPATH PYTHONHOME
exec /opt/veriftools/pyvenv/bin/python run.py "$1" --tier "$2"
