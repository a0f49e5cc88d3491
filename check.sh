#!/bin/bash
# usage: check.sh <property> <quick|thorough>
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
MPLCONFIGDIR=$(mktemp -d "${TMPDIR:-/tmp}/tftb-mpl.XXXXXX") || exit 2
export MPLCONFIGDIR
cp /opt/vp/mplconfig/fontlist*.json "$MPLCONFIGDIR"/ 2>/dev/null
trap 'rm -rf -- "$MPLCONFIGDIR"' EXIT
/opt/venv/bin/python -W ignore -m mc.run "$1" "${2:-quick}"
