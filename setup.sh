#!/bin/bash
# Nothing to build: the checks import /repo's current working tree. Sanity check only.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
PY=/opt/venv/bin/python
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" "$PY" -c "import numpy, pandas, yaml"
