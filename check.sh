#!/bin/bash
# check.sh PROPERTY [args]: run the check of one property against /repo's working tree
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -m sx.run "$@"
