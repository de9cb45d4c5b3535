#!/bin/bash
# usage: check.sh C01 [quick|thorough] [extra args]   - decides one property against /repo's working tree
cd "$(dirname "$0")" || exit 3
p="$1"; t="${2:-quick}"; shift; shift
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -B -W ignore -m vp.runner "$p" --tier "$t" "$@"
