#!/bin/sh
# check.sh PROP: decide one property on the code in /repo (see harness/check.py)
cd "$(dirname "$0")" || exit 2
PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python harness/check.py "$@"
