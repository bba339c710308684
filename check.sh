#!/bin/sh
# check.sh PROPERTY TIER | check.sh --replay FILE
d=$(cd "$(dirname "$0")" && pwd)
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
if [ "$1" = "--replay" ]; then exec "$py" "$d/sim/check.py" --replay "$2"; fi
exec "$py" "$d/sim/check.py" "$1" --tier "${2:-quick}"
