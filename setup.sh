#!/bin/sh
# Nothing is compiled: make sure the interpreters the checks use are there.
set -e
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
"$py" -c 'import numpy, pandas'
python3-vt -c 'import scipy.optimize' || echo "no scipy: optimality of dispatches will not be decided"
mkdir -p "$(dirname "$0")/evidence"
