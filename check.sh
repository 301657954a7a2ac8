#!/bin/sh
# check.sh <PROPERTY> [tier]: decides one property against /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
exec /opt/venv/bin/python -B "$here/harness/run.py" "$1" --tier "${2:-quick}"
