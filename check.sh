#!/bin/bash
# check.sh ID TIER : run one property check against /repo
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python -W ignore run.py "$1" --tier "${2:-quick}" "${@:3}"
