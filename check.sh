#!/bin/bash
# check.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 2
exec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore lib/vf.py "$1" "${2:-${VERIF_TIER:-quick}}"
