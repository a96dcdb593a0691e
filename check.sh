#!/bin/bash
# usage: check.sh PROPERTY TIER     (run from /verif)
cd "$(dirname "$(readlink -f "$0")")" || exit 3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="${VP_REPO:-/repo}:$PWD" PYTHONPYCACHEPREFIX=/tmp/vp-nopyc
exec /opt/venv/bin/python -m vp.run "$1" --tier "${2:-quick}" "${@:3}"
